"""Symbolic execution of the real Python source: an interpreter for the abstract syntax of the functions in /repo.

The source of a function is taken from the imported module (inspect, i.e. the file in /repo) on every run; docstrings are
the only thing skipped.  Every other statement is executed; anything outside the supported subset raises Unsupported, which
leaves the obligation open.  Loops over symbolic ranges are replaced by their effect: the body is executed once for an
arbitrary iteration from an arbitrary state, the invariant (closed form of every changed variable and array after k
iterations) is read off the resulting recurrence, and it is accepted only if the recurrence has one of the forms whose
solution is justified by induction (accumulation, product, disjoint overwriting, independence of the state).
"""
import ast
import inspect
import textwrap
import builtins
import operator
import types
import math
import numpy as _np
from fractions import Fraction as Fr
from . import terms as T
from . import core as C
from . import sym as Y
from .terms import P, P_, ZERO, ONE, Unsupported
from .sym import S, Arr, SList, SIter, Masked, lift, mk, is_scalar, has_sym, as_arr


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


_src = {}


def fn_ast(f):
    """(FunctionDef node, file, first line) of a python function, from its source file"""
    code = f.__code__
    k = (code.co_filename, code.co_firstlineno, f.__name__)
    r = _src.get(k)
    if r is None:
        try:
            src = textwrap.dedent(inspect.getsource(f))
        except (OSError, TypeError):
            raise Unsupported(f'no source for {f!r}')
        t = ast.parse(src)
        node = None
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and getattr(n, 'name', '<lambda>') == f.__name__:
                node = n
                break
        if node is None:
            raise Unsupported('source of ' + f.__name__)
        r = _src[k] = node
    return r


OVERLAY = {}           # module variables assigned by the interpreted code
STATE_NAMES = set()    # names of the content of shared memory within critical sections


class Env:
    __slots__ = ('vars', 'parent', 'globals', 'globalnames', 'nonlocals', 'cls')

    def __init__(self, parent, globs, cls=None):
        self.vars, self.parent, self.globals = {}, parent, globs
        self.globalnames, self.nonlocals = set(), set()
        self.cls = cls if cls is not None else (parent.cls if parent else None)

    def lookup(self, n):
        e = self
        if n not in self.globalnames:
            while e is not None:
                if n in e.vars:
                    v = e.vars[n]
                    if v is UNDEF:
                        raise Unsupported(f'value of {n} after a loop')
                    return v
                e = e.parent
        if OVERLAY and (id(self.globals), n) in OVERLAY:
            return OVERLAY[id(self.globals), n]
        if n in self.globals:
            return self.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise NameError(f"name '{n}' is not defined")

    def store(self, n, v):
        if n in self.globalnames:
            if C.CTX.parallel:
                raise Unsupported('assignment to a global in a loop')
            OVERLAY[id(self.globals), n] = v
            return
        if n in self.nonlocals:
            e = self.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
        self.vars[n] = v


class _Undef:
    pass


UNDEF = _Undef()


class Closure:
    """function defined inside interpreted code"""
    def __init__(self, interp, node, env, defaults, kwdefaults, name):
        self.interp, self.node, self.env = interp, node, env
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.call_ast(self.node, self.env.globals, a, k, self.defaults, self.kwdefaults, self.env, self.__name__)


class BoundMethod:
    def __init__(self, interp, f, obj):
        self.interp, self.f, self.obj = interp, f, obj

    def __call__(self, *a, **k):
        return self.interp.call(self.f, (self.obj,) + a, k)


class SuperProxy:
    def __init__(self, interp, cls, obj):
        self.interp, self.cls, self.obj = interp, cls, obj


HANDLERS = {}          # id of python callable -> handler(interp, *args, **kwargs)
KEEP = []              # keeps keys of HANDLERS alive


def handles(*fs):
    def deco(h):
        for f in fs:
            HANDLERS[id(f)] = h
            KEEP.append(f)
        return h
    return deco


_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
        ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
_PY = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv,
       '%': operator.mod, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor}
_IOP = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
        '%': operator.imod, '**': operator.ipow, '&': operator.iand, '|': operator.ior, '^': operator.ixor}
NUM = (int, float, complex, Fr, _np.generic)


class Interp:
    MAXDEPTH = 60

    name_products = False       # products of small matrices get a name, so that terms stay small
    opaque_inverse = False      # specify inverses by their law even where they can be written out

    def __init__(self, contracts=None, package='spaudiopy'):
        self.contracts = contracts or {}     # python function -> handler(interp, *args, **kwargs): callee contracts
        self.package = package
        self.depth = 0
        self.functions = set()               # interpreted functions (under contract)
        self.used_contracts = set()
        self.body_of = None
        self.hooks = {}                      # external function name -> callbacks on each new call record
        self.rank_rules = []                 # (predicate on array, 'col' | 'row'): full rank hypotheses of the specification
        self.calls = []                      # record of contract / external calls (name, args, result)
        self.steps = 0
        self.whiles = []
        self.tests = []

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundMethod):
            return self.call(f.f, (f.obj,) + tuple(args), kwargs)
        if isinstance(f, Closure):
            return f(*args, **kwargs)
        if isinstance(f, types.MethodType) and self.is_pkg(f.__func__):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs)
        h = self.contracts.get(f) if _hashable(f) else None
        if h is not None and self.body_of is f:
            self.body_of = h = None      # this call runs the body, calls from it use the contract
        if h is not None:
            self.used_contracts.add(getattr(f, '__qualname__', str(f)))
            return h(self, *args, **kwargs)
        h = HANDLERS.get(id(f))
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(f, types.FunctionType) and self.is_pkg(f):
            node = fn_ast(f)
            self.functions.add(f.__module__.split('.', 1)[-1] + '.' + f.__qualname__)
            env = None
            if f.__closure__:
                env = Env(None, f.__globals__)
                for n, c in zip(f.__code__.co_freevars, f.__closure__):
                    env.vars[n] = c.cell_contents
            kwd = f.__kwdefaults__ or {}
            return self.call_ast(node, f.__globals__, args, kwargs, f.__defaults__ or (), kwd, env, f.__qualname__, fobj=f)
        if inspect.isclass(f):
            if self.is_pkg(f):
                obj = object.__new__(f)
                if C.CTX.parallel:
                    C.CTX.parallel[-1].setdefault('created', {})[id(obj)] = obj
                init = f.__init__
                if isinstance(init, types.FunctionType):
                    self.call(init, (obj,) + tuple(args), kwargs)
                return obj
            if issubclass(f, BaseException):
                return f(*[str(a) if has_sym(a) else a for a in args])
        if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodType):
            me = getattr(f, '__self__', None)
            if isinstance(me, Y.FluxList):
                return f(*args)
            if isinstance(me, (list, dict, set, str, tuple)) or isinstance(me, (Y.Arr, Y.S, SList, Masked)):
                return self.native_method(f, me, args, kwargs)
        if has_sym(args) or has_sym(kwargs):
            if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith('pyvc'):
                return f(*args, **kwargs)
            if callable(f) and getattr(f, '__module__', '') and str(getattr(f, '__module__', '')).startswith('pyvc'):
                return f(*args, **kwargs)
            raise Unsupported(f'call of {getattr(f, "__module__", "")}.{getattr(f, "__qualname__", f)} on symbolic arguments')
        return f(*args, **kwargs)

    def is_pkg(self, f):
        return (getattr(f, '__module__', '') or '').split('.')[0] in (self.package, 'vspec')

    def native_method(self, f, me, args, kwargs):
        name = f.__name__
        if isinstance(me, list) and name == 'append' and C.CTX.parallel is not None:
            for lp in C.CTX.parallel:
                if id(me) in lp['lists']:
                    lp['appends'].append((me, args[0]))
                    return None
        if isinstance(me, list) and name in ('extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse') and C.CTX.parallel:
            for lp in C.CTX.parallel:
                if id(me) in lp['lists']:
                    raise Unsupported('list mutation in a symbolic loop')
        if isinstance(me, (dict, set)) and name in ('update', 'add', 'discard', 'remove', 'intersection_update', 'difference_update', 'setdefault', 'pop', 'popitem', 'clear') and any(
                id(me) in lp['dicts'] for lp in C.CTX.parallel or ()):
            raise Unsupported('dictionary mutation in a symbolic loop')
        if isinstance(me, list) and name == 'extend' and isinstance(args[0], (Arr, SList)):
            args = (list(self.iterate(args[0])),)
        if isinstance(me, str) and has_sym(args):
            return me
        if isinstance(me, list) and name in ('index', 'count'):
            pass
        return f(*args, **kwargs)

    def call_ast(self, node, globs, args, kwargs, defaults, kwdefaults, env, name, fobj=None):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            self.depth = 0
            raise Unsupported('recursion depth')
        try:
            cls = None
            if fobj is not None and '.' in fobj.__qualname__ and args and isinstance(node, ast.FunctionDef):
                cn = fobj.__qualname__.split('.')[-2]
                cls = globs.get(cn)
            e = Env(env, globs, cls)
            a = node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            kw = dict(kwargs)
            for n, v in zip(pos, args):
                e.vars[n] = v
                if n in kw:
                    raise TypeError(f"{name}() got multiple values for argument '{n}'")
            if len(args) > len(pos):
                if a.vararg is None:
                    raise TypeError(f'{name}() takes {len(pos)} positional arguments but {len(args)} were given')
            if a.vararg is not None:
                e.vars[a.vararg.arg] = tuple(args[len(pos):])
            nd = len(defaults)
            for k, n in enumerate(pos):
                if n in e.vars:
                    continue
                if n in kw:
                    e.vars[n] = kw.pop(n)
                elif k >= len(pos) - nd:
                    e.vars[n] = defaults[k - (len(pos) - nd)]
                else:
                    raise TypeError(f"{name}() missing a required argument: '{n}'")
            for x in a.kwonlyargs:
                if x.arg in kw:
                    e.vars[x.arg] = kw.pop(x.arg)
                elif x.arg in kwdefaults:
                    e.vars[x.arg] = kwdefaults[x.arg]
                else:
                    raise TypeError(f"{name}() missing a keyword-only argument: '{x.arg}'")
            if a.kwarg is not None:
                e.vars[a.kwarg.arg] = kw
            elif kw:
                raise TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'")
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, e)
            try:
                self.block(node.body, e)
            except ReturnSig as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 300000:
            raise Unsupported('too many steps')
        k = type(st)
        if k is ast.Expr:
            if isinstance(st.value, ast.Constant):
                return
            self.ev(st.value, env)
        elif k is ast.Assign:
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif k is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif k is ast.AugAssign:
            self.augassign(st, env)
        elif k is ast.Return:
            raise ReturnSig(self.ev(st.value, env) if st.value is not None else None)
        elif k is ast.If:
            self.block(st.body if self.truth(self.ev(st.test, env)) else st.orelse, env)
        elif k is ast.For:
            self.for_(st, env)
        elif k is ast.While:
            n = 0
            if not st.orelse and not has_break(st.body) and self.symbolic_while(st, env):
                return
            try:
                while self.truth(self.ev(st.test, env)):
                    n += 1
                    if n > 400:
                        raise Unsupported('unbounded while loop')
                    try:
                        self.block(st.body, env)
                    except ContinueSig:
                        pass
                else:
                    self.block(st.orelse, env)
            except BreakSig:
                pass
        elif k is ast.Raise:
            if st.exc is None:
                raise
            e = self.ev(st.exc, env)
            raise e
        elif k is ast.Assert:
            if not self.truth(self.ev(st.test, env)):
                raise AssertionError()
        elif k is ast.Pass:
            pass
        elif k is ast.Break:
            raise BreakSig()
        elif k is ast.Continue:
            raise ContinueSig()
        elif k is ast.FunctionDef:
            d = tuple(self.ev(x, env) for x in st.args.defaults)
            kd = {a.arg: self.ev(x, env) for a, x in zip(st.args.kwonlyargs, st.args.kw_defaults) if x is not None}
            env.store(st.name, Closure(self, st, env, d, kd, st.name))
        elif k is ast.With:
            self.with_(st, env)
        elif k is ast.Try:
            self.try_(st, env)
        elif k is ast.Delete:
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env.vars.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    o, i = self.ev(t.value, env), self.ev(t.slice, env)
                    del o[int(i) if isinstance(i, S) else i]
                elif isinstance(t, ast.Attribute):
                    o = self.ev(t.value, env)
                    if C.CTX.parallel or has_sym(o):
                        raise Unsupported('delete')
                    delattr(o, t.attr)
                else:
                    raise Unsupported('delete')
        elif k is ast.Global:
            env.globalnames.update(st.names)
        elif k is ast.Nonlocal:
            env.nonlocals.update(st.names)
        elif k is ast.Import:
            for a in st.names:
                m = __import__(a.name)
                if a.asname:
                    for part in a.name.split('.')[1:]:
                        m = getattr(m, part)
                env.store(a.asname or a.name.split('.')[0], m)
        elif k is ast.ImportFrom:
            import importlib
            base = st.module or ''
            if st.level:
                base = self.package + ('.' + base if base else '')
            m = importlib.import_module(base)
            for a in st.names:
                try:
                    v = getattr(m, a.name)
                except AttributeError:
                    v = importlib.import_module(base + '.' + a.name)
                env.store(a.asname or a.name, v)
        else:
            raise Unsupported('statement ' + k.__name__)

    def with_(self, st, env):
        def rec(items):
            if not items:
                return self.block(st.body, env)
            it = items[0]
            cm = self.ev(it.context_expr, env)
            from . import par
            cm = par.lock_of(cm) or cm
            enter = getattr(cm, '__enter__', None)
            if not isinstance(cm, (par.Lock, par.Pool)) and has_sym(cm) or enter is None:
                raise Unsupported('context manager')
            v = enter()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                rec(items[1:])
            except (ReturnSig, BreakSig, ContinueSig):
                cm.__exit__(None, None, None)
                raise
            except BaseException as e:
                if not cm.__exit__(type(e), e, e.__traceback__):
                    raise
            else:
                cm.__exit__(None, None, None)
        rec(st.items)

    def try_(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except (ReturnSig, BreakSig, ContinueSig, Unsupported, C.Infeasible):
                raise
            except Exception as e:
                for h in st.handlers:
                    t = self.ev(h.type, env) if h.type is not None else Exception
                    if isinstance(e, t):
                        if h.name:
                            env.store(h.name, e)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            self.block(st.finalbody, env)

    def assign(self, t, v, env):
        k = type(t)
        if k is ast.Name:
            env.store(t.id, v)
        elif k in (ast.Tuple, ast.List):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                parts = list(items[:i]) + [list(items[i:len(items) - after])] + list(items[len(items) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
        elif k is ast.Subscript:
            o = self.ev(t.value, env)
            i = self.index(t.slice, env)
            self.setitem(o, i, v)
        elif k is ast.Attribute:
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, i, v):
        if isinstance(o, Arr):
            Y.setitem(o, i, v)
        elif isinstance(o, _np.ndarray):
            raise Unsupported('write to a native array')
        elif isinstance(o, dict):
            if has_sym(i) and not isinstance(i, S):
                raise Unsupported('symbolic key')
            if any(id(o) in lp['dicts'] for lp in C.CTX.parallel or ()):
                raise Unsupported('dictionary item assignment in a symbolic loop')
            o[self.key(i)] = v
        elif isinstance(o, list):
            if C.CTX.parallel:
                for lp in C.CTX.parallel:
                    if id(o) in lp['lists']:
                        raise Unsupported('list item assignment in a symbolic loop')
            o[int(i) if isinstance(i, S) else i] = v
        elif hasattr(type(o), '__setitem__') and self.is_pkg(type(o)):
            self.call(type(o).__setitem__, (o, i, v))
        else:
            raise Unsupported('item assignment on ' + type(o).__name__)

    def key(self, i):
        return int(i) if isinstance(i, S) and i.p.is_const() and i.p.is_int() else i

    def setattr(self, o, name, v):
        if isinstance(o, Arr):
            raise Unsupported('attribute of an array')
        d = inspect.getattr_static(type(o), name, None)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError(f"can't set attribute {name}")
            self.call(d.fset, (o, v))
        elif self.is_pkg(type(o)) or isinstance(o, types.SimpleNamespace) or type(o).__module__.startswith('pyvc.obl'):
            q = Y.view_of(o)
            if q is not None:
                return q[0].assign(q[1], name, v)
            if C.CTX.parallel and id(o) not in C.CTX.parallel[-1].get('created', ()):
                raise Unsupported('attribute assignment in a symbolic loop')
            object.__setattr__(o, name, v)
        else:
            raise Unsupported('attribute assignment on ' + type(o).__name__)

    def unpack(self, v, n, star=False):
        if isinstance(v, Arr):
            if isinstance(v.shape_[0], P) and not star:
                if not Y.same_dim(v.shape_[0], n):
                    raise ValueError('unpack')
                return [v[S(P_(i))] for i in range(n)]
        items = list(self.iterate(v))
        if not star and len(items) != n:
            raise ValueError(f'expected {n} values to unpack, got {len(items)}')
        return items

    def augassign(self, st, env):
        op = _BIN.get(type(st.op))
        if op is None:
            if isinstance(st.op, ast.MatMult):
                op = '@'
            else:
                raise Unsupported('operator')
        t = st.target
        if isinstance(t, ast.Name):
            cur = env.lookup(t.id)
            env.store(t.id, self.iop(op, cur, self.ev(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.iop(op, cur, self.ev(st.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, cur, self.ev(st.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def iop(self, op, cur, v):
        if isinstance(cur, Arr):
            return cur.iop(op, v) if op != '@' else Y.matmul(cur, v)
        if isinstance(cur, list) and op == '+':
            if C.CTX.parallel:
                for lp in C.CTX.parallel:
                    if id(cur) in lp['lists']:
                        raise Unsupported('list extension in a symbolic loop')
            cur += list(self.iterate(v))
            return cur
        if isinstance(cur, _np.ndarray):
            raise Unsupported('write to a native array')
        return self.binop(op, cur, v)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, SList):
            return not C.CTX.decide_poly(T.ind_eq(v.n))
        if isinstance(v, Masked):
            raise Unsupported('truth value of a selection')
        return bool(v)

    def binop(self, op, a, b):
        if op == '@':
            if isinstance(a, (Arr, _np.ndarray)) or isinstance(b, (Arr, _np.ndarray)):
                return self.call(_np.matmul, (a, b))
            raise TypeError('matmul')
        if isinstance(a, (bool,)) and isinstance(b, bool) and op in '&|^':
            return _PY[op](a, b)
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if op == '%':
                try:
                    return a % (tuple(str(x) if has_sym(x) else x for x in b) if isinstance(b, tuple) else (str(b) if has_sym(b) else b))
                except TypeError:
                    return str(a)
            return _PY[op](a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return _PY[op](a, b)
        if isinstance(a, (list, tuple)) and op == '*' and (isinstance(b, int)):
            return a * b
        if isinstance(b, (list, tuple)) and op == '*' and (isinstance(a, int)):
            return b * a
        if isinstance(a, list) and op == '*' and isinstance(b, S):
            if b.p.is_const():
                return a * int(b)
            if len(a) == 1:
                return SList(b.p, lambda k: a[0])
            raise Unsupported('list repetition')
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            if op == '/':
                if b == 0:
                    raise ZeroDivisionError('division by zero')
                return S(P_(Fr(a, b)))
            if op == '**' and b < 0:
                return S(P_(Fr(a) ** b))
            return _PY[op](a, b)
        if a is None or b is None:
            raise TypeError('unsupported operand type(s): NoneType')
        if is_scalar(a) and is_scalar(b) or isinstance(a, (Arr, Masked, _np.ndarray, S)) or isinstance(b, (Arr, Masked, _np.ndarray, S)):
            return Y.arith(op, a, b)
        if isinstance(a, set) and isinstance(b, set):
            return _PY[op](a, b)
        raise Unsupported(f'operator {op} on {type(a).__name__}, {type(b).__name__}')

    def compare(self, op, a, b):
        k = type(op)
        if k is ast.Is:
            p, q = Y.view_of(a), Y.view_of(b)
            if p is not None and q is not None:
                return p[0] is q[0] and C.CTX.decide_poly(T.ind_eq(p[1] - q[1]))
            return a is b or (isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) is type(b) and a == b)
        if k is ast.IsNot:
            return not self.compare(ast.Is(), a, b)
        if k in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return (not r) if k is ast.NotIn else r
        o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[k]
        if isinstance(a, (S, Arr, Masked)) or isinstance(b, (S, Arr, Masked)):
            return Y.cmp(o, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (has_sym(a) or has_sym(b)):
            if o in ('==', '!='):
                r = len(a) == len(b) and all(self.truth(self.compare(ast.Eq(), x, y)) for x, y in zip(a, b))
                return r if o == '==' else not r
            raise Unsupported('ordering of sequences')
        if isinstance(a, (float, Fr)) and isinstance(b, NUM) or isinstance(b, (float, Fr)) and isinstance(a, NUM):
            return Y.cmp(o, a, b)
        py = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[o]
        return py(a, b)

    def contains(self, c, x):
        if isinstance(c, (list, tuple, set)):
            for y in c:
                if y is x:
                    return True
                r = self.compare(ast.Eq(), y, x)
                if isinstance(r, (bool, _np.bool_)):
                    if r:
                        return True
                elif self.truth(r):
                    return True
            return False
        if isinstance(c, (dict, str)):
            return x in c
        if isinstance(c, _np.ndarray) and c.dtype == object and all(y is None for y in c.ravel()):
            return x is None and c.size > 0
        if isinstance(c, range):
            if isinstance(x, S):
                return self.truth(mk(T.ind_ge(x.p - c.start) * T.ind_ge(P_(c.stop) - 1 - x.p), True))
            return x in c
        if isinstance(c, Arr):
            return self.truth(wrapb(Y.reduce_any(Y.arr_cmp('==', c, x))))
        raise Unsupported('membership in ' + type(c).__name__)

    def index(self, node, env):
        if isinstance(node, ast.Tuple):
            return tuple(self.index(x, env) for x in node.elts)
        return self.ev(node, env)

    def getitem(self, o, i):
        if isinstance(o, (Arr, SList, Masked, Y.FluxList)):
            return o[i]
        if isinstance(o, _np.ndarray):
            if has_sym(i):
                return as_arr(o)[i]
            r = o[i]
            return r
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(i, slice):
                i = slice(*[int(x) if isinstance(x, S) else x for x in (i.start, i.stop, i.step)])
                return o[i]
            if isinstance(i, S):
                p = C.CTX.simp(i.p, solve=True)
                if not p.is_const():
                    if isinstance(o, (list, tuple)) and o and all(is_scalar(x) for x in o):
                        return Y.getitem(as_arr(list(o)), S(p))
                    raise Unsupported('symbolic index into a list')
                i = int(p.const())
            if isinstance(i, _np.integer):
                i = int(i)
            return o[i]
        if isinstance(o, dict):
            return o[self.key(i)]
        h = HANDLERS.get(id(o))
        if h is not None:
            return h(self, i)
        if self.is_pkg(type(o)):
            return self.call(type(o).__getitem__, (o, i))
        if isinstance(o, types.SimpleNamespace) or hasattr(o, '__getitem__'):
            if has_sym(i) or has_sym(o):
                raise Unsupported('subscript of ' + type(o).__name__)
            return o[i]
        raise TypeError(f"'{type(o).__name__}' object is not subscriptable")

    def getattr(self, o, name):
        if isinstance(o, SuperProxy):
            mro = type(o.obj).__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    f = c.__dict__[name]
                    if isinstance(f, types.FunctionType):
                        return BoundMethod(self, f, o.obj)
                    return f
            if name == '__init__':
                return lambda *a, **k: None
            raise AttributeError(name)
        if isinstance(o, Y.FluxList):
            if name != 'append':
                raise Unsupported('method of a list that grows in the loop')
            return o.append
        if isinstance(o, (Arr, S, SList, Masked)):
            if not hasattr(type(o), name) and name not in getattr(o, '__dict__', {}):
                raise Unsupported(f'attribute {name} of {type(o).__name__}')
            return getattr(o, name)
        if isinstance(o, (int, float)) and not isinstance(o, bool) and name in ('real', 'conj', 'astype', 'conjugate', 'imag', 'copy'):
            return getattr(S(lift(o)), name)
        if isinstance(o, types.ModuleType):
            v = getattr(o, name)
            if isinstance(v, float) and v == math.pi:
                return S(T.PI)
            return v
        if not inspect.isclass(o) and self.is_pkg(type(o)):
            d = inspect.getattr_static(type(o), name, None)
            if isinstance(d, property):
                return self.call(d.fget, (o,))
            if isinstance(d, types.FunctionType) and name not in o.__dict__:
                return BoundMethod(self, d, o)
            if isinstance(d, classmethod):
                return BoundMethod(self, d.__func__, type(o))
            if isinstance(d, staticmethod):
                return d.__func__
            q = Y.view_of(o)
            if q is not None and name != '__dict__':
                try:
                    return q[0].read(q[1], name)
                except AttributeError:
                    pass
            return object.__getattribute__(o, name)
        if inspect.isclass(o) and self.is_pkg(o):
            d = inspect.getattr_static(o, name, None)
            if isinstance(d, classmethod):
                return BoundMethod(self, d.__func__, o)
        return getattr(o, name)

    def ev(self, n, env):
        k = type(n)
        if k is ast.Constant:
            return n.value
        if k is ast.Name:
            return env.lookup(n.id)
        if k is ast.Attribute:
            return self.getattr(self.ev(n.value, env), n.attr)
        if k is ast.Call:
            return self.call_node(n, env)
        if k is ast.BinOp:
            a = self.ev(n.left, env)
            b = self.ev(n.right, env)
            if isinstance(n.op, ast.MatMult):
                return self.binop('@', a, b)
            op = _BIN.get(type(n.op))
            if op is None:
                if has_sym(a) or has_sym(b):
                    raise Unsupported('operator ' + type(n.op).__name__)
                return {ast.LShift: operator.lshift, ast.RShift: operator.rshift}[type(n.op)](a, b)
            return self.binop(op, a, b)
        if k is ast.UnaryOp:
            v = self.ev(n.operand, env)
            if isinstance(n.op, ast.Not):
                if isinstance(v, S) and v.b:
                    return mk(ONE - v.p, True)
                return not self.truth(v)
            if isinstance(n.op, ast.USub):
                return -v
            if isinstance(n.op, ast.UAdd):
                return +v
            return ~v
        if k is ast.BoolOp:
            v = None
            for x in n.values:
                v = self.ev(x, env)
                if x is n.values[-1]:
                    return v
                t = self.truth(v)
                if isinstance(n.op, ast.And) and not t:
                    return v if not isinstance(v, S) else False
                if isinstance(n.op, ast.Or) and t:
                    return v if not isinstance(v, S) else (True if v.b else v)
            return v
        if k is ast.Compare:
            a = self.ev(n.left, env)
            r = True
            for op, c in zip(n.ops, n.comparators):
                b = self.ev(c, env)
                t = self.compare(op, a, b)
                if len(n.ops) == 1:
                    return t
                if not self.truth(t):
                    return False
                a = b
            return r
        if k is ast.Subscript:
            o = self.ev(n.value, env)
            return self.getitem(o, self.index(n.slice, env))
        if k is ast.Slice:
            return slice(*[self.ev(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if k is ast.Tuple:
            return tuple(self.seq(n.elts, env))
        if k is ast.List:
            if len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
                v = self.ev(n.elts[0].value, env)
                it = self.siter(v)
                return it.as_list() if it is not None else list(self.iterate(v))
            return list(self.seq(n.elts, env))
        if k is ast.Set:
            return set(self.seq(n.elts, env))
        if k is ast.Dict:
            return {self.ev(a, env): self.ev(b, env) for a, b in zip(n.keys, n.values)}
        if k is ast.IfExp:
            return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
        if k is ast.Lambda:
            d = tuple(self.ev(x, env) for x in n.args.defaults)
            kd = {a.arg: self.ev(x, env) for a, x in zip(n.args.kwonlyargs, n.args.kw_defaults) if x is not None}
            return Closure(self, n, env, d, kd, '<lambda>')
        if k in (ast.ListComp, ast.GeneratorExp):
            return self.comp(n.generators, n.elt, env)
        if k is ast.SetComp:
            return set(self.comp(n.generators, n.elt, env))
        if k is ast.DictComp:
            e = Env(env, env.globals)
            out = {}

            def rec(gs):
                if not gs:
                    out[self.ev(n.key, e)] = self.ev(n.value, e)
                    return
                for x in self.iterate(self.ev(gs[0].iter, e)):
                    self.assign(gs[0].target, x, e)
                    if all(self.truth(self.ev(c, e)) for c in gs[0].ifs):
                        rec(gs[1:])
            rec(n.generators)
            return out
        if k is ast.JoinedStr:
            return ''.join(str(v.value) if isinstance(v, ast.Constant) else self.formatted(v, env) for v in n.values)
        if k is ast.Starred:
            raise Unsupported('starred expression')
        if k is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.assign(n.target, v, env)
            return v
        raise Unsupported('expression ' + k.__name__)

    def formatted(self, v, env):
        x = self.ev(v.value, env)
        spec = self.ev(v.format_spec, env) if v.format_spec is not None else ''
        if has_sym(x):
            return str(x)
        if v.conversion in (114, 115, 97):
            x = {114: repr, 115: str, 97: ascii}[v.conversion](x)
        return format(x, spec)

    def seq(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += list(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def call_node(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return SuperProxy(self, env.cls, env.vars.get('self') or self._find_self(env))
        f = self.ev(n.func, env)
        args = self.seq(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, tuple(args), kw)

    def _find_self(self, env):
        while env is not None:
            if 'self' in env.vars:
                return env.vars['self']
            env = env.parent
        raise Unsupported('super')

    # ------------------------------------------------------------ iteration
    def siter(self, v):
        """SIter of an iterable of symbolic length, or None"""
        if isinstance(v, SIter):
            n = v.hi - v.lo
            return None if n.is_const() else v
        if isinstance(v, SList):
            if v.n.is_const():
                return None
            return SIter(ZERO, v.n, v.f)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise TypeError('iteration over a 0-d array')
            if isinstance(v.shape_[0], int):
                return None
            return SIter(ZERO, v.shape_[0], lambda k: v[S(k)])
        return None

    def long_iter(self, v, most=64):
        """SIter of a long concrete iteration"""
        if isinstance(v, range) and len(v) > most:
            return SIter(ZERO, P_(len(v)), lambda k: S(P_(v.start) + k * v.step))
        if isinstance(v, SIter) and (v.hi - v.lo).is_const() and (v.hi - v.lo).const() > most:
            return v
        if isinstance(v, SList) and v.n.is_const() and v.n.const() > most:
            return SIter(ZERO, v.n, v.f)
        return None

    def iterate(self, v):
        """native iteration"""
        if isinstance(v, SIter):
            n = v.hi - v.lo
            if n.is_const():
                return [v.f(v.lo + i) for i in range(int(n.const()))]
            raise Unsupported('iteration over a symbolic range here')
        if isinstance(v, SList):
            if v.n.is_const():
                return [v.f(P_(i)) for i in range(int(v.n.const()))]
            raise Unsupported('iteration over a list of symbolic length here')
        if isinstance(v, Arr):
            if isinstance(v.shape_[0], P):
                raise Unsupported('iteration over a symbolic dimension here')
            return [v[i] for i in range(v.shape_[0])]
        if isinstance(v, S):
            raise TypeError("'float' object is not iterable")
        if self.is_pkg(type(v)) and hasattr(type(v), '__getitem__'):
            n = self.call(len, (v,))
            return [self.getitem(v, i) for i in range(int(n))]
        return v

    def comp(self, gens, elt, env):
        e = Env(env, env.globals)

        def rec(gs):
            it = self.ev(gs[0].iter, e if gs is not gens else env)
            s = self.siter(it)
            if s is None and isinstance(it, (SIter, SList)) and not gs[0].ifs and len(gs) == 1:
                s = self.long_iter(it)
            if s is not None:
                if len(gs) > 1:
                    raise Unsupported('nested comprehension over a symbolic range')
                kv = T.new_index('c', s.lo, s.hi)
                saved = dict(e.vars)
                lists, dicts, _ = containers(e, self)
                rec = {'lists': lists, 'dicts': dicts, 'appends': [], 'pure': True}

                def one():
                    e.vars = dict(saved)
                    self.assign(gs[0].target, s.f(P_(kv)), e)
                    if not all(self.truth(self.ev(c, e)) for c in gs[0].ifs):
                        return UNDEF
                    return self.ev(elt, e)
                if gs[0].ifs:
                    res = self.paths(one, rec=rec)
                    e.vars = saved
                    kept = [(pc, x) for pc, x in res if x is not UNDEF]
                    if not kept:
                        return []
                    m, x = sum((pc for pc, _ in kept), ZERO), merge(kept)
                    if made_here(x, rec):
                        raise Unsupported('list of some objects')
                    return Y.SSel(s.hi - s.lo, lambda k: Y.vsubs(x, {kv.id: s.lo + k}), lambda k: T.subs(m, {kv.id: s.lo + k}))
                v = self.merged(one, C.CTX.entails_ge(s.hi - s.lo - 1), rec)
                e.vars = saved
                return item_list(s.lo, s.hi, kv, v, rec)
            out = []
            for x in self.iterate(it):
                self.assign(gs[0].target, x, e)
                if all(self.truth(self.ev(c, e)) for c in gs[0].ifs):
                    if len(gs) > 1:
                        r = rec(gs[1:])
                        if isinstance(r, SList):
                            raise Unsupported('nested symbolic comprehension')
                        out += r
                    else:
                        out.append(self.ev(elt, e))
            return out
        return rec(gens)

    def merged(self, f, some=False, rec=None):
        """value of f() merged over the paths its execution takes; some: it is executed at least once"""
        res = self.paths(f, some, rec)
        if rec is not None and len(res) > 1 and all(id(v) in rec.get('created', ()) for _, v in res):
            return merge_objects(res, rec)
        return merge(res)

    def paths(self, f, some=False, rec=None):
        """rec: f stands for any number of evaluations, which must have no effect"""
        ctx = C.CTX
        if rec is not None:
            old_par, old_journal, start = ctx.parallel, ctx.journal, Y.serial()
            ctx.parallel, ctx.journal = (ctx.parallel or []) + [rec], []
            try:
                res = self.paths(f, some)
                if rec['appends'] or any(a.serial < start for a, _ in ctx.journal):
                    raise Unsupported('comprehension with an effect')
                return res
            finally:
                if any(a.serial < start for a, _ in ctx.journal):
                    for a, fn in reversed(ctx.journal):
                        if a.serial < start:
                            a.fn = fn
                ctx.parallel, ctx.journal = old_par, old_journal
        ex = C.Explorer()
        res = []
        snap = ctx.snapshot()
        base = len(ctx.facts)
        ctx.explorers.append(ex)
        try:
            while True:
                ex.start()
                ctx.restore(snap)
                try:
                    v = f()
                    res.append((C.ctx_pc(base), v))
                except C.Infeasible:
                    pass
                except (ReturnSig, BreakSig, ContinueSig, Unsupported, C.Violation):
                    raise
                except Exception as e:
                    if ctx.feasible():
                        if some and not res and C.ctx_pc(base) == ONE:
                            raise
                        raise Unsupported(f'{type(e).__name__} raised for some iteration: {e}')
                if not ex.advance():
                    break
        finally:
            ctx.explorers.pop()
            ctx.restore(snap)
        return res

    # ------------------------------------------------------------ loops
    def for_(self, st, env):
        it = self.ev(st.iter, env)
        s = self.siter(it)
        if s is None and not st.orelse and not has_break(st.body):
            s = self.long_iter(it)
            if s is not None:
                try:
                    return self.symbolic_for(st, env, s)
                except Unsupported:
                    s = None
        if s is None:
            try:
                for x in self.iterate(it):
                    try:
                        self.assign(st.target, x, env)
                        self.block(st.body, env)
                    except ContinueSig:
                        pass
                self.block(st.orelse, env)
            except BreakSig:
                pass
            return
        if st.orelse:
            raise Unsupported('for ... else over a symbolic range')
        self.symbolic_for(st, env, s)

    def symbolic_while(self, st, env):
        """a loop whose test is a symbolic condition: its number of iterations is some n >= 0 (termination assumed);
        the test holds before every iteration k < n and fails after the last one"""
        ctx = C.CTX
        t = self.ev(st.test, env)
        if not (isinstance(t, S) and not ctx.simp(t.p, solve=True).is_const()):
            return False
        names = assigned_names(st.body)
        nv = T.var(f'iterations!{len(self.whiles)}', 'I', True)
        n = P_(nv)
        from . import npf
        npf.RIGID.add(nv.id)
        tests = []
        before = dict(env.vars)

        def body(k):
            c = self.ev(st.test, env)
            c = lift(c) if Y.isb(c) else ONE - T.ind_eq(lift(c))
            tests.append((k, c))
            ctx.assume_derived(c)
            self.block(st.body, env)
        try:
            run_loop(self, SIter(ZERO, n, lambda k: S(k)), body, env, names)
        except Unsupported:
            env.vars.clear()
            env.vars.update(before)
            return False
        self.whiles.append(n)
        # the test after the last iteration, and before iteration k
        c = self.ev(st.test, env)
        c = lift(c) if Y.isb(c) else ONE - T.ind_eq(lift(c))
        ctx.assume_derived(ONE - c)
        k, c = tests[-1]
        kid = k.as_atom().id
        if not any(T.atom(a).kind == 'app' and '!' in T.atom(a).data[0] for a in C.support(c)):
            ctx.foralls.append((ZERO, n, lambda j: [T.subs(c, {kid: j})]))
            # the tests determine the number of iterations
            key = T.subs(c, {kid: P_(_K)})
            for q, m in self.tests:
                if q == key:
                    ctx.assume_derived(T.ind_eq(n - m))
                    break
            self.tests.append((key, n))
        return True

    def symbolic_for(self, st, env, s):
        if has_break(st.body):
            return search_loop(self, s, lambda k: (self.assign(st.target, s.f(k), env), self.block(st.body, env)), env,
                               assigned_names([st.target] + st.body))
        run_loop(self, s, lambda k: (self.assign(st.target, s.f(k), env), self.block(st.body, env)), env,
                 assigned_names([st.target] + st.body))


def made_here(v, rec):
    """v holds an object constructed in the iteration"""
    if id(v) in rec.get('created', ()):
        return True
    if isinstance(v, (tuple, list)):
        return any(made_here(x, rec) for x in v)
    if isinstance(v, dict):
        return any(made_here(x, rec) for x in v.values())
    return False


def snap_owner(v):
    if isinstance(v, Arr) and v.base is not None:
        v.owner().snapped = True
    elif isinstance(v, (tuple, list)):
        for x in v:
            snap_owner(x)


def item_list(lo, hi, kv, v, rec, final=lambda x: x):
    """list of the values v of the iterations lo <= kv < hi"""
    if id(v) in rec.get('created', ()):
        d = dict(v.__dict__)
        if len(C.CTX.parallel or ()) or any(made_here(x, rec) or isinstance(x, (list, dict, set)) for x in d.values()):
            raise Unsupported('list of objects')
        for x in d.values():
            snap_owner(x)
        d = {a: final(x) for a, x in d.items()}
        return Y.SObjs(hi - lo, type(v), {a: (lambda k, x=x: Y.vsubs(x, {kv.id: lo + k})) for a, x in d.items()})
    if made_here(v, rec):
        raise Unsupported('list of objects')
    snap_owner(v)
    v = final(v)
    return SList(hi - lo, lambda k: Y.vsubs(v, {kv.id: lo + k}))


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def wrapb(v):
    return v


def assigned_names(nodes):
    out = {}
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out[x.id] = None
    return list(out)


def merge(res):
    """[(path condition, value)] -> one value"""
    if not res:
        raise C.Infeasible()
    if len(res) == 1:
        return res[0][1]
    vals = [v for _, v in res]
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if all(is_scalar(v) for v in vals):
        r = ZERO
        for pc, v in res:
            r = r + pc * lift(v)
        if all(Y.isb(v) for v in vals):
            return mk(r, True)
        return S(r)
    if all(isinstance(v, (Arr, _np.ndarray)) for v in vals):
        arrs = [as_arr(v) for v in vals]
        sh = arrs[0].shape_
        for a in arrs[1:]:
            if len(a.shape_) != len(sh) or not all(Y._same_struct(x, y) for x, y in zip(a.shape_, sh)):
                raise Unsupported('different shapes on different paths')
        gens = [Y.gen_term(a) for a in arrs]
        pcs = [pc for pc, _ in res]

        def fn(idx):
            r = ZERO
            for pc, (iv, t) in zip(pcs, gens):
                r = r + pc * T.subs(t, dict(zip([x.id for x in iv], idx)))
            return r
        return Arr(sh, fn, Y.jsort(*[a.sort for a in arrs]))
    if all(isinstance(v, tuple) and len(v) == len(v0) for v in vals):
        return tuple(merge([(pc, v[i]) for pc, v in res]) for i in range(len(v0)))
    if all(isinstance(v, list) and len(v) == len(v0) for v in vals):
        return [merge([(pc, v[i]) for pc, v in res]) for i in range(len(v0))]
    if all(isinstance(v, (str, bool, type(None))) and v == v0 for v in vals):
        return v0
    if all(isinstance(v, dict) and list(v) == list(v0) for v in vals):
        return {k: merge([(pc, v[k]) for pc, v in res]) for k in v0}
    if C.CTX.parallel and all(id(v) in C.CTX.parallel[-1].get('created', ()) for v in vals):
        return merge_objects(res, C.CTX.parallel[-1])
    raise Unsupported('values of different kinds on different paths')


def merge_objects(res, rec):
    """objects constructed on the paths of one iteration"""
    v0 = res[0][1]
    if not all(type(v) is type(v0) and list(v.__dict__) == list(v0.__dict__) for _, v in res):
        raise Unsupported('values of different kinds on different paths')
    o = object.__new__(type(v0))
    rec['created'][id(o)] = o
    for a in v0.__dict__:
        o.__dict__[a] = merge([(pc, v.__dict__[a]) for pc, v in res])
    return o


# ---------------------------------------------------------------- loop summaries
class StateApp:
    """names of havocked state functions"""
    n = 0


def subst_app(p, mp, cache=None):
    """replace applications of state functions: {name: f(args) -> P}"""
    if cache is None:
        cache = {}
    r = cache.get(p)
    if r is not None:
        return r
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            if T.atom(a).kind == 'pw' and e != 1:
                q = T.pw_subst(T.atom(a), e, lambda q: subst_app(q, mp, cache))
            else:
                q = _subst_atom(T.atom(a), mp, cache)
                q = T.lift_args(lambda x: x.pow(e), [q]) if e != 1 else q
            t = t * q
            if t.is_zero():
                break
        r = r + t
    cache[p] = r
    return r


def has_state(p, names, cache=None):
    if cache is None:
        cache = {}
    r = cache.get(p)
    if r is not None:
        return r
    r = any(_atom_state(T.atom(a), names, cache) for m in p.d for a, _ in m)
    cache[p] = r
    return r


def _atom_state(A, names, cache):
    k = A.kind
    if k == 'app':
        return A.data[0] in names or any(isinstance(x, P) and has_state(x, names, cache) for x in A.data[1])
    if k == 'conj':
        return _atom_state(T.atom(A.data), names, cache)
    if k == 'ind':
        return has_state(A.data[1], names, cache)
    if k == 'pa':
        return has_state(A.data, names, cache)
    if k == 'pw':
        b, m = A.data
        return has_state(P({m: Fr(1)}), names, cache) or (isinstance(b, P) and has_state(b, names, cache))
    if k == 'sum':
        h, rng, mono = A.data
        return has_state(P({mono: Fr(1)}), names, cache) or any(has_state(x, names, cache) for r in rng for x in r)
    if k == 'prod':
        h, lo, hi, b = A.data
        return any(has_state(x, names, cache) for x in (lo, hi, b))
    return False


def _subst_atom(A, mp, cache):
    names = set(mp)
    if not _atom_state(A, names, {}):
        return P_(A)
    k = A.kind
    G = lambda q: subst_app(q, mp, cache) if isinstance(q, P) else q
    if k == 'app':
        args = [G(x) for x in A.data[1]]
        if A.data[0] in mp:
            return T.lift_args(lambda *a: mp[A.data[0]](tuple(a)), args) if args else mp[A.data[0]](())
        if A.data[0] in T.NOLIFT:
            return T.reapp(A, args)
        return T.lift_args(lambda *a: T.reapp(A, list(a)), args)
    if k == 'conj':
        return _subst_atom(T.atom(A.data), mp, cache).conj()
    if k == 'ind':
        q = G(A.data[1])
        return T.ind_eq(q) if A.data[0] == 'eq' else T.ind_ge(q)
    if k == 'pa':
        return G(A.data)
    if k == 'pw':
        b, m = A.data
        q = G(P({m: Fr(1)}))
        return T.expi(q) if b == 'expi' else T.power(G(b), q)
    if k == 'sum':
        bs, body = T.open_sum(A)
        return T.msum([(v, G(lo), G(hi)) for v, lo, hi in bs], G(T.mono_poly(dict(body))))
    if k == 'prod':
        h, lo, hi, body = A.data
        v = T.fresh('pv')
        b = T.subs(body, {T.bv(h).id: P_(v)})
        return T.mk_prod(v, G(lo), G(hi), G(b))
    raise Unsupported('state in ' + k)


def has_break(body):
    """a break that leaves this loop"""
    def rec(n):
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While)):
            return any(rec(x) for x in n.orelse)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(rec(x) for x in ast.iter_child_nodes(n))
    return any(rec(n) for n in body)


def search_loop(interp, s, body, env, names):
    """loop that looks for the first iteration leaving it by break: iterations that do not leave must have no effect.
    The number of that iteration is first(cond, lo, hi), equal to hi if there is none."""
    ctx = C.CTX
    lo, hi = s.lo, s.hi
    before = dict(env.vars)
    lists, dicts, _ = containers(env, interp)
    start = Y.serial()
    kv = T.new_index('k', lo, hi)
    ex = C.Explorer()
    snap = ctx.snapshot()
    rec = {'lists': lists, 'dicts': dicts, 'appends': []}
    ctx.parallel = (ctx.parallel or []) + [rec]
    old_journal = ctx.journal
    ctx.explorers.append(ex)
    cond = ZERO
    unknown = [n for n in names if n in before]     # values left by earlier iterations: not to be read
    try:
        while True:
            ex.start()
            ctx.restore(snap)
            ctx.assume(T.ind_ge(hi - 1 - lo))
            pbase = len(ctx.facts)
            env.vars.clear()
            env.vars.update(before)
            for n in unknown:
                env.vars[n] = UNDEF
            ctx.journal = []
            rec['appends'] = []
            try:
                out = 'normal'
                try:
                    body(P_(kv))
                except ContinueSig:
                    pass
                except BreakSig:
                    out = 'break'
                except ReturnSig:
                    if ctx.feasible():
                        raise Unsupported('return in a loop over a symbolic range')
                    out = 'none'
                if out == 'break':
                    cond = cond + C.ctx_pc(pbase)
                elif out == 'normal':
                    if any(a.serial < start for a, _ in ctx.journal) or rec['appends']:
                        raise Unsupported('break in a loop whose other iterations have an effect')
            except C.Infeasible:
                pass
            except (Unsupported, C.Violation):
                raise
            except Exception as e:
                if ctx.feasible():
                    raise Unsupported(f'{type(e).__name__} for some iteration: {e}')
            finally:
                for a, old in reversed(ctx.journal):
                    if a.serial < start:
                        a.fn = old
            if not ex.advance():
                break
    finally:
        ctx.explorers.pop()
        ctx.restore(snap)
        ctx.parallel = ctx.parallel[:-1] or None
        ctx.journal = old_journal
        env.vars.clear()
        env.vars.update(before)
    for n in unknown:
        env.vars[n] = UNDEF
    if cond.is_zero():
        return
    if 'first' in str(cond) and any(A.data[0] == 'first' for A in map(T.atom, C.support(cond)) if A.kind == 'app'):
        raise Unsupported('nested searches')
    key = T.subs(cond, {kv.id: P_(FIRSTVAR)})
    kt = T.app('first', key, lo, hi, sort='I', nn=T.syn_nonneg(lo))
    g = T.ind_ge(hi - 1 - kt)
    if ctx.fork(g):
        ctx.assume_derived(T.ind_ge(kt - lo))
        c = T.subs(cond, {kv.id: kt})
        ctx.assume_derived(c)
        try:
            body(kt)
        except BreakSig:
            return
        if ctx.simp(c, solve=False).is_zero():
            raise C.Infeasible()
        raise Unsupported('search loop: the first hit does not leave the loop')
    for n in names:
        env.vars[n] = UNDEF


FIRSTVAR = T.bv(310)


def containers(env, interp):
    """lists and dictionaries that exist before a loop, and where each list is held"""
    lists, dicts, slots, seen = {}, {}, {}, {}
    todo = []
    e = env
    while e is not None:
        todo += list(e.vars.values())
        e = getattr(e, 'parent', None)
    todo += [v for v in (env.globals or {}).values() if type(v) in (list, dict) and len(v) < 50]
    while todo and len(seen) < 3000:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (S, Arr, SList, str, int, float, complex, _np.ndarray, type(None), types.ModuleType)):
            continue
        seen[id(x)] = x
        if isinstance(x, list):
            lists[id(x)] = x
            items = list(enumerate(x)) if len(x) < 200 else []
        elif isinstance(x, dict):
            dicts[id(x)] = x
            items = list(x.items()) if len(x) < 200 else []
        elif isinstance(x, set):
            dicts[id(x)] = x
            continue
        elif isinstance(x, tuple):
            todo += list(x)
            continue
        elif isinstance(x, types.SimpleNamespace) or interp.is_pkg(type(x)):
            d = getattr(x, '__dict__', {})
            items = []
            for k, y in d.items():
                todo.append(y)
                if isinstance(y, list):
                    slots.setdefault(id(y), []).append((d, k))
        else:
            continue
        for k, y in items:
            todo.append(y)
            if isinstance(y, list):
                slots.setdefault(id(y), []).append((x, k))
    return lists, dicts, slots


def run_loop(interp, s, body, env, names, parallel=False):
    """effect of executing body(k) for k in [s.lo, s.hi); see the module docstring"""
    ctx = C.CTX
    lo, hi = s.lo, s.hi
    # all names bound in enclosing local scopes are visible through env.vars only (closures read them)
    carried = [n for n in names if n in env.vars and env.vars[n] is not UNDEF]
    before = dict(env.vars)
    lists, dicts, slots = containers(env, interp)
    kv = T.new_index('k', lo, hi)
    kp = P_(kv)
    owners = {}
    start_serial = Y.serial()
    kinds = {}
    for n in carried:
        v = before[n]
        if Y.isb(v):
            kinds[n] = 'B'
        elif is_scalar(v):
            kinds[n] = 'I' if lift(v).is_int() and not isinstance(v, float) else Y.psort(lift(v))
        elif isinstance(v, (Arr, _np.ndarray)):
            kinds[n] = 'A'
        else:
            kinds[n] = 'O'        # other objects: must not be read before being reassigned
    arr_names = {}
    known = {}              # scalar name -> closed form, once found
    recs = []
    flux = {}               # lists appended to: id -> name standing for the last element (or None)

    def execute():
        StateApp.n += 1
        tag = StateApp.n
        state = {}
        for n in carried:
            if n in known:
                continue
            if kinds[n] in 'IRC':
                state[n] = f'{n}!{tag}'
            elif kinds[n] == 'A' and n in arr_names:
                state[n] = f'{n}!{tag}'
        astate = {id(a): f'arr{i}!{tag}' for i, a in enumerate(owners.values())}
        saved_fn = {k: a.fn for k, a in owners.items()}
        paths = []
        ex = C.Explorer()
        snap = ctx.snapshot()
        base = len(ctx.facts)
        rec = {'lists': lists, 'dicts': dicts, 'appends': [], 'objs': [], 'reads': [], 'created': {}}
        recs.append(rec)
        ctx.parallel = (ctx.parallel or []) + [rec]
        old_journal = ctx.journal
        ctx.explorers.append(ex)
        discovered = {}
        try:
            while True:
                ex.start()
                ctx.restore(snap)
                # the body runs for an existing iteration
                ctx.assume(T.ind_ge(hi - 1 - lo))
                ctx.instantiate(kp, kp - 1)
                pbase = len(ctx.facts)
                env.vars.clear()
                env.vars.update(before)
                for n in carried:
                    if n in known:
                        env.vars[n] = S(known[n](kp))
                    elif n in state:
                        if kinds[n] == 'A':
                            a = as_arr(before[n])
                            nm = state[n]
                            env.vars[n] = Arr(a.shape_, lambda idx, nm=nm, so=arr_names[n]: T.app(nm, *idx, sort=so), arr_names[n])
                        else:
                            env.vars[n] = S(T.app(state[n], sort=kinds[n]))
                    elif kinds[n] == 'B':
                        env.vars[n] = UNDEF
                    elif kinds[n] == 'O' and not isinstance(before[n], (list, str, type(None))):
                        pass
                for n, x in list(env.vars.items()):
                    if id(x) in flux and isinstance(x, list):
                        env.vars[n] = Y.FluxList(x, flux[id(x)], env, kp - lo, rec)
                for q, pn in flux.items():
                    for c, k in slots.get(q, ()):
                        c[k] = Y.FluxList(lists[q], pn, env, kp - lo, rec)
                for k, a in owners.items():
                    nm = astate[k]
                    a.fn = Y.memo(lambda idx, nm=nm, so=a.sort: T.app(nm, *idx, sort='R' if so == 'B' else so))
                ctx.journal = []
                rec['appends'] = []
                rec['objs'] = []
                try:
                    out = 'normal'
                    try:
                        body(kp)
                    except ContinueSig:
                        pass
                    except BreakSig:
                        if ctx.feasible():
                            raise Unsupported('break in a loop over a symbolic range')
                        out = 'none'
                    except ReturnSig:
                        if ctx.feasible():
                            raise Unsupported('return in a loop over a symbolic range')
                        out = 'none'
                    if out == 'normal':
                        for a, _ in ctx.journal:
                            if a.serial < start_serial and id(a) not in owners:
                                discovered[id(a)] = a
                        paths.append((C.ctx_pc(pbase), {n: env.vars.get(n, UNDEF) for n in names},
                                      {k: _snapshot_term(a) for k, a in owners.items()},
                                      list(rec['appends']), list(rec['objs'])))
                except C.Infeasible:
                    pass
                except (Unsupported, C.Violation):
                    raise
                except Exception as e:
                    if ctx.feasible():
                        raise Unsupported(f'{type(e).__name__} for some iteration: {e}')
                finally:
                    for a, old in reversed(ctx.journal):
                        if a.serial < start_serial and id(a) not in owners:
                            a.fn = old
                if discovered:
                    break
                if not ex.advance():
                    break
        finally:
            ctx.explorers.pop()
            ctx.restore(snap)
            ctx.parallel = ctx.parallel[:-1] or None
            ctx.journal = old_journal
            for k, a in owners.items():
                a.fn = saved_fn[k]
            for q in flux:
                for c, k in slots.get(q, ()):
                    c[k] = lists[q]
            env.vars.clear()
            env.vars.update(before)
        return tag, state, astate, paths, discovered

    lenient = True
    for attempt in range(14):
        old_len = ctx.lenient
        ctx.lenient = old_len or lenient
        try:
            tag, state, astate, paths, disc = execute()
        finally:
            ctx.lenient = old_len
        if disc:
            for k, a in disc.items():
                if a.fn is not None:
                    owners[k] = a
            # arrays mutated in place through a carried name are owners now; restore content is done by execute
            continue
        # lists appended to: the next pass sees their last element and length as loop state
        grown = {id(l): l for p in paths for l, _ in p[3] if id(l) not in flux}
        if grown:
            for q, l in grown.items():
                last = l[-1] if l else None
                if is_scalar(last) and not Y.isb(last):
                    pn = f'<last{len(flux)}>'
                    flux[q] = pn
                    names = list(names) + [pn]
                    carried.append(pn)
                    before[pn] = last
                    kinds[pn] = 'I' if lift(last).is_int() and not isinstance(last, float) else Y.psort(lift(last))
                else:
                    flux[q] = None
            continue
        # names carrying arrays that are rebound in the body
        again = False
        for n in carried:
            vals = [p[1][n] for p in paths]
            if kinds[n] == 'A' and n not in arr_names:
                if any(v is not before[n] for v in vals):
                    so = Y.jsort(*[as_arr(v).sort if isinstance(v, (Arr, _np.ndarray)) else 'C' for v in vals])
                    arr_names[n] = Y.jsort(so, as_arr(before[n]).sort)
                    again = True
            elif kinds[n] in 'IR' and n in state:
                for v in vals:
                    if is_scalar(v):
                        so = Y.psort(lift(v))
                        if Y.SORTS[so] > Y.SORTS[kinds[n]]:
                            kinds[n] = so
                            again = True
        if again:
            continue
        if lenient and paths:
            # closed forms of the scalars first (index bounds are checked in the next pass, with these forms)
            todo = {}
            for n in carried:
                if n in state and kinds[n] != 'A':
                    vals = [(p[0], p[1][n]) for p in paths]
                    if any(v is UNDEF for _, v in vals):
                        continue
                    try:
                        v = merge(vals)
                    except Unsupported:
                        continue
                    if is_scalar(v):
                        todo[n] = lift(v)
            snames = set(state.values()) | set(astate.values())
            moved = True
            while moved and todo:
                moved = False
                kmap = {state[q]: (lambda idx, q=q: known[q](kp)) for q in known if q in state}
                for n in list(todo):
                    t = subst_app(todo[n], kmap) if kmap else todo[n]
                    if has_state(t, snames - {state[n]}):
                        continue
                    f = solve_recurrence(state[n], kv, lo, hi, [], t, lambda idx, p=lift(before[n]): p, {})
                    del todo[n]
                    moved = True
                    if f is not None:
                        known[n] = lambda k, f=f: f(k, ())
            lenient = False
            continue
        break
    else:
        raise Unsupported('loop state does not stabilise')
    if not paths:
        return
    # the closed forms are inductive: base and step
    for n, f in known.items():
        v = merge([(p[0], p[1][n]) for p in paths])
        ctx_ok = (f(lo) - lift(before[n])).is_zero() or C.prove_zero(f(lo) - lift(before[n]))
        snap = ctx.snapshot()
        try:
            ctx.assume(T.ind_ge(hi - 1 - lo))
            step = lift(v) - f(kp + 1)
            ctx_ok = ctx_ok and (step.is_zero() or C.prove_zero(step))
        finally:
            ctx.restore(snap)
        if not ctx_ok:
            raise Unsupported(f'closed form of {n} is not inductive')
    # in-place mutation discovered in the first pass happened on the real arrays: owners' fn were restored by execute()
    empty_possible = not Y.surely(T.ind_ge(hi - 1 - lo))

    # ---- recurrences
    merged_names = {}
    for n in names:
        vals = [(p[0], p[1][n]) for p in paths]
        if any(v is UNDEF for _, v in vals):
            merged_names[n] = UNDEF
            continue
        try:
            merged_names[n] = merge(vals)
        except Unsupported:
            merged_names[n] = UNDEF
    unsolved = {}           # state function name -> (kind, ...)
    for n in carried:
        if n in state:
            v = merged_names[n]
            if v is UNDEF:
                continue
            if kinds[n] == 'A':
                a = as_arr(v)
                b = as_arr(before[n])
                if len(a.shape_) != len(b.shape_) or not all(Y._same_struct(x, y) for x, y in zip(a.shape_, b.shape_)):
                    unsolved[state[n]] = None
                    continue
                iv, t = Y.gen_term(a)
                unsolved[state[n]] = (iv, t, b.reader(), b.shape_)
            else:
                if not is_scalar(v):
                    unsolved[state[n]] = None
                    continue
                unsolved[state[n]] = ([], lift(v), lambda idx, p=lift(before[n]): p, ())
    for k, a in owners.items():
        iv = [T.new_index('g', 0, P_(d)) for d in a.shape_]
        t = ZERO
        for p in paths:
            iv2, t2 = p[2][k]
            t = t + p[0] * T.subs(t2, {x.id: P_(y) for x, y in zip(iv2, iv)})
        unsolved[astate[k]] = (iv, t, a.fn, a.shape_)
    allnames = set(unsolved)
    closed = {}             # name -> f(k, idx) closed form after the iterations lo..k-1
    progress = True
    pending = {n: v for n, v in unsolved.items() if v is not None}
    bad = {n for n, v in unsolved.items() if v is None}
    why = {}
    while progress and pending:
        progress = False
        for nm in list(pending):
            iv, t, init, shape = pending[nm]
            if closed:
                t = subst_app(t, {q: (lambda idx, q=q: closed[q](kp, idx)) for q in closed})
            others = (allnames - {nm} - set(closed))
            if has_state(t, others):
                why[nm] = 'depends on other loop state'
                pending[nm] = (iv, t, init, shape)
                continue
            if parallel and nm in astate.values():
                independent(nm, kv, lo, hi, iv, t, next(a for k, a in owners.items() if astate[k] == nm), parallel)
            f = solve_recurrence(nm, kv, lo, hi, iv, t, init, why)
            if f is None:
                continue
            closed[nm] = f
            del pending[nm]
            progress = True
    # names whose new value does not depend on any unsolved state may still be defined
    fin = {q: (lambda idx, q=q: closed[q](hi, idx)) for q in closed}
    at_k = {q: (lambda idx, q=q: closed[q](kp, idx)) for q in closed}
    # arrays
    for k, a in owners.items():
        nm = astate[k]
        if nm not in closed:
            raise Unsupported(f'no closed form for an array changed in the loop ({why.get(nm)})')
    # appended lists
    appended = {}
    cnt = {}
    for p in paths:
        rec = recs[-1]
        for lst, v in p[3]:
            cnt.setdefault(id(lst), []).append((p[0], v))
    for lid, items in cnt.items():
        per_path = [sum(1 for l2, _ in p[3] if id(l2) == lid) for p in paths]
        if any(c > 1 for c in per_path):
            raise Unsupported('several appends in a symbolic loop')
        if any(c != 1 for c in per_path):
            if lists[lid]:
                raise Unsupported('conditional append to a list with elements')
            appended[lid] = (merge([(pc, v) for pc, v in items]), S(sum((pc for pc, _ in items), ZERO)))
        else:
            if all(id(v) in rec['created'] for _, v in items) and len(items) > 1:
                appended[lid] = (merge_objects(items, rec), None)
            else:
                appended[lid] = (merge([(pc, v) for pc, v in items]), None)
    # attributes of objects in lists: iteration k may write and read those of the k-th one only
    fields = {}
    for p in paths:
        for sl, k, name, v in p[4]:
            fields[id(sl), name] = sl
            if not (k - kp).is_zero():
                raise Unsupported('an iteration changes another element of a list of objects')
            if made_here(v, rec):
                raise Unsupported('attribute of an element is an object')
    for sl, k, name in rec['reads']:
        if (id(sl), name) in fields and not (k - kp).is_zero():
            raise Unsupported('an iteration reads another element of a list of objects that the loop changes')
    news = []
    for (q, name), sl in fields.items():
        if not (lo.is_zero() and (hi - sl.n).is_zero()):
            raise Unsupported('a loop changes some elements of a list of objects')
        vals = []
        for p in paths:
            w = [v for sl2, _, nm, v in p[4] if sl2 is sl and nm == name]
            vals.append((p[0], w[-1] if w else sl.attrs[name](kp)))
        w = merge(vals)
        snap_owner(w)
        w = state_free(w, allnames, at_k, closed)
        if not isinstance(w, (S, Arr, int, float, complex, str, type(None))):
            raise Unsupported('attribute of an element')
        news.append((sl, name, w))
    for sl, name, w in news:
        sl.attrs[name] = Y.fresh_items(lambda k, w=w: Y.vsubs(w, {kv.id: k}))
    for k, a in owners.items():
        f = closed[astate[k]]
        iv = [T.new_index('g', 0, P_(d)) for d in a.shape_]
        if ctx.journal is not None:
            ctx.journal.append((a, a.fn))
        a.set_content(lambda idx, f=f: f(hi, idx))
    for n in names:
        if n in known:
            env.vars[n] = S(known[n](hi))
            continue
        if n in state and state[n] in closed:
            f = closed[state[n]]
            if kinds[n] == 'A':
                a = as_arr(before[n])
                env.vars[n] = Arr(a.shape_, lambda idx, f=f: f(hi, idx), arr_names[n])
            else:
                env.vars[n] = S(f(hi, ()))
            continue
        v = merged_names[n]
        if v is UNDEF or (n in state):
            env.vars[n] = UNDEF
            continue
        if n in before and v is before[n]:
            continue
        if made_here(v, recs[-1]):
            env.vars[n] = UNDEF
            continue
        # killed in every iteration: value of the last one
        try:
            w = state_free(v, allnames, at_k, closed)
            if empty_possible:
                if n in before or True:
                    env.vars[n] = UNDEF
                    continue
            env.vars[n] = Y.vsubs(w, {kv.id: hi - 1})
        except Unsupported:
            env.vars[n] = UNDEF
    for lid, (v, sel) in appended.items():
        lst = lists[lid]
        if sel is not None and made_here(v, rec):
            raise Unsupported('list of some objects')
        sl = item_list(lo, hi, kv, v, rec, lambda x: state_free(x, allnames, at_k, closed))
        if sel is not None:
            m = lift(state_free(sel, allnames, at_k, closed))
            sl = Y.SSel(hi - lo, sl.f, lambda k, m=m: T.subs(m, {kv.id: lo + k}))
        if lst:
            pre = list(lst)
            sl = _prefixed(pre, sl)
        for n, x in list(env.vars.items()):
            if x is lst:
                env.vars[n] = sl
        for c, k in slots.get(lid, ()):
            c[k] = sl
    for pn in flux.values():
        env.vars.pop(pn, None)


def _prefixed(pre, sl):
    if all(is_scalar(x) for x in pre):
        # the closed form of the appended elements also gives the initial ones
        try:
            if all((lift(sl.f(P_(c - len(pre)))) - lift(x)).is_zero() for c, x in enumerate(pre)):
                return SList(sl.n + len(pre), lambda k: sl.f(k - len(pre)))
        except (Unsupported, ZeroDivisionError):
            pass

    def f(k):
        if k.is_const():
            c = int(k.const())
            return pre[c] if c < len(pre) else sl.f(k - len(pre))
        if Y.surely(T.ind_ge(k - len(pre))):
            return sl.f(k - len(pre))
        if all(is_scalar(x) for x in pre):
            r = ZERO
            for c, x in enumerate(pre):
                r = r + T.ind_eq(k - c) * lift(x)
            return S(r + T.ind_ge(k - len(pre)) * lift(sl.f(k - len(pre))))
        raise Unsupported('list with concrete prefix')
    return SList(sl.n + len(pre), f)


def _snapshot_term(a):
    return Y.gen_term(a)


def state_free(v, names, at_k, closed):
    """value with loop state replaced by its closed form at k"""
    if isinstance(v, S):
        p = subst_app(v.p, at_k) if at_k else v.p
        if has_state(p, names):
            raise Unsupported('value depends on unsolved loop state')
        return mk(p, True) if v.b else S(p)
    if isinstance(v, Arr):
        iv, t = Y.gen_term(v)
        t = subst_app(t, at_k) if at_k else t
        if has_state(t, names):
            raise Unsupported('value depends on unsolved loop state')
        ids = [x.id for x in iv]
        return Arr(v.shape_, lambda idx: T.subs(t, dict(zip(ids, idx))), v.sort)
    if isinstance(v, tuple):
        return tuple(state_free(x, names, at_k, closed) for x in v)
    if isinstance(v, list):
        return [state_free(x, names, at_k, closed) for x in v]
    if isinstance(v, dict):
        return {k: state_free(x, names, at_k, closed) for k, x in v.items()}
    return v


def pinned(p, ids):
    """p with the variables ids replaced, within each product, by the values its brackets [v == e] give them"""
    r = ZERO
    for m, c in p.d.items():
        keep, rest = ONE, T.mono_poly(dict(m))
        for _ in range(len(ids)):
            hit = None
            for mm in rest.d:
                for a, _ in mm:
                    A = T.atom(a)
                    if A.kind == 'ind' and A.data[0] == 'eq':
                        for v in ids:
                            if v in A.fv:
                                e = T._solve_eq(A.data[1], v)
                                if e is not None and v not in e.fv:
                                    hit = (a, v, e)
            if hit is None:
                break
            a, v, e = hit
            p1, p0 = T.cofactor(rest, a)
            if not p0.is_zero():
                break
            keep = keep * P_(T.atom(a))
            rest = T.subs(p1, {v: e})
        r = r + (keep * rest).scale(c)
    return r


def split_linear(t, cell):
    """t = c1 * cell + c0 with cell an atom that occurs linearly; None otherwise"""
    c1, c0 = {}, {}
    for m, c in t.d.items():
        e = dict(m).get(cell, 0)
        if e == 0:
            c0[m] = c
        elif e == 1:
            mm = tuple(x for x in m if x[0] != cell)
            c1[mm] = c1.get(mm, 0) + c
        else:
            return None
    return P({m: c for m, c in c1.items() if c}), P(c0)


def solve_recurrence(nm, kv, lo, hi, iv, t, init, why):
    """closed form f(k, idx) of x_{k+1}(idx) = t(k, idx, x_k(idx)), x_lo = init"""
    ids = [v.id for v in iv]
    cellp = T.app(nm, *[P_(v) for v in iv])
    cell = cellp.as_atom()
    r = split_linear(t, cell.id)
    if r is None:
        why[nm] = 'nonlinear recurrence'
        return iterate(nm, kv, lo, ids, t, init)
    c1, c0 = r
    c1 = C.CTX.simp(c1, solve=False)
    if has_state(c1, {nm}) or has_state(c0, {nm}):
        # other cells of the same array are read
        c1s, c0s = C.CTX.simp(c1, solve=True), C.CTX.simp(c0, solve=True)
        if has_state(c0s, {nm}):
            r = split_linear(pinned(C.CTX.simp(t, solve=True), ids), cell.id)
            if r is not None:
                c1s, c0s = r
        if has_state(c1s, {nm}) or has_state(c0s, {nm}):
            why[nm] = 'reads other cells of the array it writes'
            return iterate(nm, kv, lo, ids, t, init) or sequential(nm, kv, lo, hi, ids, t, cell, init)
        c1, c0 = c1s, c0s

    def inst(p, k, idx):
        return T.subs(p, {kv.id: k, **dict(zip(ids, idx))})

    if c1 == ONE:
        def f(k, idx):
            v = T.new_index('j', lo, k)
            return init(idx) + T.mk_sum(v, lo, k, inst(c0, P_(v), idx))
        return f
    if c1.is_zero():
        # overwritten in every iteration
        def f(k, idx):
            g = T.bracket_ge(k - 1 - lo)
            r = ZERO
            if not g.is_zero():
                r = g * inst(c0, k - 1, idx)
            if g != ONE:
                r = r + (ONE - g) * init(idx)
            return r
        return f
    if c0.is_zero() and not _idempotent(c1):
        def f(k, idx):
            v = T.new_index('j', lo, k)
            return init(idx) * T.mk_prod(v, lo, k, inst(c1, P_(v), idx))
        return f
    few = few_hits(C.CTX.simp(ONE - c1, solve=True), C.CTX.simp(c0, solve=True), kv)
    if few is not None and len(few) > 1:
        # the iterations that change a cell are finitely many: their effects in order
        def f(k, idx):
            x = init(idx)
            for e in few:
                e = T.subs(e, dict(zip(ids, idx)))
                g = T.bracket_ge(e - lo) * T.bracket_ge(k - 1 - e)
                if not g.is_zero():
                    x = g * (inst(c1, e, idx) * x + inst(c0, e, idx)) + (ONE - g) * x
            return x
        return f
    if _idempotent(c1):
        hit = ONE - c1
        acc = (c0 * c1)
        acc = C.CTX.simp(acc, solve=True)
        if not acc.is_zero() and not C.prove_zero(acc):
            why[nm] = 'mixed accumulation and overwriting'
            return None
        if kv.id not in hit.fv:
            # the same cells in every iteration
            def f(k, idx):
                g = T.bracket_ge(k - 1 - lo) * inst(hit, k - 1, idx)
                return g * inst(c0, k - 1, idx) + (ONE - g) * init(idx)
            return f
        if not disjoint(hit, kv, lo, hi):
            why[nm] = 'cells may be overwritten in several iterations'
            return None

        def f(k, idx):
            wit = single_hit(lambda x: inst(hit, x, idx), lo, k, idx)
            if wit is not None:
                return inst(c0, wit, idx)
            v = T.new_index('j', lo, k)
            s1 = T.mk_sum(v, lo, k, inst(c0, P_(v), idx))
            w = T.new_index('j', lo, k)
            s2 = T.mk_sum(w, lo, k, inst(hit, P_(w), idx))
            return s1 + (ONE - s2) * init(idx)
        return f
    if c0.is_zero():
        def f(k, idx):
            v = T.new_index('j', lo, k)
            return init(idx) * T.mk_prod(v, lo, k, inst(c1, P_(v), idx))
        return f
    why[nm] = f'recurrence x -> ({c1}) x + ({c0})'
    return None


ITER = {}
_X = T.var('<x>', 'R')
_K = T.var('<k>', 'I', True)


def iterate(nm, kv, lo, ids, t, init):
    """x_{k+1} = F(x_k), the same function F of the cell alone in every iteration: the (k - lo)-fold iterate of F"""
    here = [P_(T.atom(i)) for i in ids]

    def cell(idx):
        if list(idx) != here:
            raise Unsupported('other cells')
        return P_(_X)
    try:
        F = subst_app(t, {nm: cell})
    except Unsupported:
        return None
    if kv.id in F.fv or not F.fv.isdisjoint(ids) or not F.is_real() and not (F.conj() - F).is_zero():
        return None
    it = ITER.get(F)
    if it is None:
        it = ITER[F] = f'iterate{len(ITER)}'

        def rule(k, x):
            if k.is_const() and k.const() <= 0:
                return x
            if x.is_const() and T.subs(F, {_X.id: x}) == x:
                return x
            return None
        T.APP_RULES[it] = rule
        from . import numeric

        def value(k, x):
            for _ in range(int(round(k.real if isinstance(k, complex) else k))):
                x = numeric.ev(F, {_X.id: x})
            return x
        numeric.FUN[it] = value
        snap = C.CTX.snapshot()
        try:
            C.CTX.assume(T.ind_ge(P_(_X) + 1))
            C.CTX.assume(T.ind_ge(ONE - P_(_X)))
            if C.prove_true(T.ind_ge(F + 1)) and C.prove_true(T.ind_ge(ONE - F)):
                def bounded(smt, A, x, im, args):
                    u = smt.real(args[1])
                    return [C.z3.Implies(C.z3.And(u >= -1, u <= 1), C.z3.And(x >= -1, x <= 1))]
                C.APP_AXIOMS[it] = [bounded]
        finally:
            C.CTX.restore(snap)
    return lambda k, idx: T.app(it, k - lo, init(idx), sort='R')


SEQ, SEQ_DEF = {}, {}


def sequential(nm, kv, lo, hi, ids, t, cell, init):
    """iteration k writes column k of an array, from its column k - 1: column c of the result is an (uninterpreted) function
    determined by its defining equation, which v.unfold gives. Slices that do not refer to each other are separate functions"""
    k = P_(kv)
    so = cell.sort
    col = None
    for j, i in enumerate(ids):
        a = T.ind_eq(k - P_(T.atom(i))).as_atom()
        if a is not None and a.id in t.atoms() and T.subs(T.cofactor(t, a.id)[1] - P_(cell), {}).is_zero():
            col, at = j, a.id
            break
    if col is None:
        return None
    body = T.subs(T.cofactor(t, at)[0], {kv.id: P_(T.atom(ids[col]))})
    cid = ids[col]
    c = P_(T.atom(cid))
    consts = [j for j, i in enumerate(ids) if j != col and i in T.RANGE and (T.RANGE[i][1] - T.RANGE[i][0]).is_const()]
    rest = [j for j in range(len(ids)) if j != col and j not in consts]
    combos = [()]
    for j in consts:
        r = T.RANGE[ids[j]]
        combos = [x + (P_(v),) for x in combos for v in range(int(r[0].const()), int(r[1].const()))]
        if len(combos) > 8:
            return None
    F, reads = [], []
    for cb in combos:
        here = dict(zip([ids[j] for j in consts], cb))
        b = T.subs(body, here)
        used = []

        def read(idx):
            if not (idx[col] - c + 1).is_zero():
                if Y.surely(T.ind_ge(idx[col] - c)):
                    return init(idx)         # not yet written
                raise Unsupported('column')
            q = tuple(idx[j] for j in consts)
            if q not in combos:
                raise Unsupported('slice')
            n = combos.index(q)
            if n not in used:
                used.append(n)
            return T.app(f'<prev{n}>', *[idx[j] for j in rest], sort=so)
        try:
            F.append(C.CTX.simp(subst_app(b, {nm: read}), solve=True))
        except Unsupported:
            return None
        reads.append(used)
    slots = [P_(T.var(f'<s{j}>', 'I', True)) for j in range(len(rest) + 1)]
    funs = []
    for n, cb in enumerate(combos):
        group = [n]
        for g in group:
            group += [u for u in reads[g] if u not in group]
        mp = dict(zip([ids[j] for j in rest] + [cid], slots))
        ren = {f'<prev{g}>': (lambda a, x=x: T.app(f'<prev:{x}>', *a, sort=so)) for x, g in enumerate(group)}
        at0 = [None] * len(ids)
        for j, x in zip(rest + [col], slots):
            at0[j] = x
        parts = []
        for g in group:
            for j, x in zip(consts, combos[g]):
                at0[j] = x
            parts.append((subst_app(T.subs(F[g], mp), ren), init(tuple(at0))))
        free = set(lo.fv)
        for a, b in parts:
            free |= a.fv | b.fv
        free = sorted(x for x in free - {s.as_atom().id for s in slots} if T.atom(x).kind == 'var')
        if kv.id in free:
            return None
        pl = {x: P_(T.var(f'<f{j}:{T.atom(x).sort}{int(bool(T.atom(x).nn))}>', T.atom(x).sort, T.atom(x).nn)) for j, x in enumerate(free)}
        key = (so,) + tuple((T.subs(a, pl), T.subs(b, pl)) for a, b in parts) + (T.subs(lo, pl),)
        f = SEQ.get(key)
        if f is None:
            f = SEQ[key] = f'seq#{len(SEQ)}'
            SEQ_DEF[f] = key, slots, [pl[x].as_atom().id for x in free], so
        funs.append((f, [P_(T.atom(x)) for x in free]))

    def form(kk, idx):
        x = init(idx)
        now = T.bracket_ge(idx[col] - lo) * T.bracket_ge(kk - 1 - idx[col])
        if now.is_zero():
            return x
        y = ZERO
        for cb, (f, free) in zip(combos, funs):
            w = ONE
            for j, q in zip(consts, cb):
                w = w * T.ind_eq(idx[j] - q)
            if not w.is_zero():
                y = y + w * T.app(f, *[idx[j] for j in rest], idx[col], *free, sort=so)
        return now * y + (ONE - now) * x
    return form


def unfold(p):
    """use the defining equations of the functions introduced by sequential once, for every outermost application"""
    from .vc import deep_atoms
    names = {T.atom(a).data[0] for a in deep_atoms(p) if T.atom(a).kind == 'app' and T.atom(a).data[0] in SEQ_DEF}

    def one(f):
        key, slots, free, so = SEQ_DEF[f]
        if len(key) != 3:
            raise Unsupported('slices that depend on each other')
        (F, x0), lo = key[1:]

        def val(args):
            r, cc, fr = list(args[:len(slots) - 1]), args[len(slots) - 1], args[len(slots):]
            mp = dict(zip([s.as_atom().id for s in slots] + free, args))
            l = T.subs(lo, mp)

            def prev(a):
                g = T.bracket_ge(cc - 1 - l)
                m2 = dict(mp)
                m2.update(zip([s.as_atom().id for s in slots], list(a) + [cc - 1]))
                out = ZERO
                if not g.is_zero():
                    out = g * T.app(f, *a, cc - 1, *fr, sort=so)
                if g != ONE:
                    out = out + (ONE - g) * T.subs(x0, m2)
                return out
            return subst_app(T.subs(F, mp), {'<prev:0>': prev})
        return val
    return subst_app(p, {f: one(f) for f in names})


def few_hits(hit, c0, kv):
    """iterations e_1 < e_2 < ... (terms in the cell) such that the effect (hit, c0) of every other one is nothing"""
    sols = []
    rest = [hit, c0]
    for _ in range(4):
        found = None
        for p in rest:
            for a in p.atoms():
                A = T.atom(a)
                if A.kind == 'ind' and A.data[0] == 'eq' and kv.id in A.fv:
                    e = T._solve_eq(A.data[1], kv.id)
                    if e is not None and kv.id not in e.fv:
                        found = a, e
                        break
            if found:
                break
        if found is None:
            break
        a, e = found
        if e not in sols:
            sols.append(e)
        rest = [T.cofactor(p, a)[1] for p in rest]
    if not all(p.is_zero() for p in rest) or not sols:
        return None
    if not all((x - sols[0]).is_const() for x in sols):
        return None
    return sorted(sols, key=lambda x: (x - sols[0]).const())


def independent(nm, kv, lo, hi, iv, t, arr, region):
    """the effect t of work item kv on shared memory is that of the items in order, for every order and interleaving"""
    if getattr(arr, 'shared', None) is None:
        raise Unsupported('a work item writes to memory of its own process')
    cell = T.app(nm, *[P_(v) for v in iv]).as_atom()
    r = split_linear(t, cell.id)
    if r is None:
        raise C.Violation('work items change shared cells depending on their content')
    c1, c0 = C.CTX.simp(r[0], solve=True), C.CTX.simp(r[1], solve=True)
    if has_state(c1, {nm} | STATE_NAMES) or has_state(c0, {nm} | STATE_NAMES):
        raise C.Violation('a work item reads shared cells another one may write')
    if c1 == ONE and not region.unlocked:
        return
    hit = ONE - c1
    if c1 == ONE:
        hit = c0
    if not (hit.is_zero() or disjoint_support(hit, kv, lo, hi)):
        if c1 == ONE:
            raise C.Violation('work items add to the same shared cells without holding the lock')
        if not _idempotent(c1) or not disjoint(hit, kv, lo, hi):
            raise C.Violation('several work items write the same shared cells')
    if c1 != ONE and _idempotent(c1):
        acc = C.CTX.simp(c0 * c1, solve=True)
        if not acc.is_zero() and not C.prove_zero(acc):
            raise C.Violation('work items add to shared cells other ones write')


def disjoint_support(f, kv, lo, hi):
    """for every cell, f(k) is non-zero for at most one item k"""
    common = set.intersection(*[{a for a, _ in m} for m in f.d]) if f.d else set()
    for a in common:
        A = T.atom(a)
        if A.kind == 'ind' and A.data[0] == 'eq' and kv.id in A.fv and T._solve_eq(A.data[1], kv.id) is not None:
            return True
    return False


def single_hit(hit, lo, k, idx):
    """an iteration w in [lo, k) that provably writes the cell idx (then the only one), among the indices occurring in idx"""
    if all(x.is_const() for x in idx):
        return None
    seen = []
    for x in idx:
        for m in x.d:
            for a, _ in m:
                if T.atom(a).kind == 'var' and T.atom(a).sort == 'I' and a in T.RANGE and a not in seen:
                    seen.append(a)
    for a in seen[:6]:
        w = P_(T.atom(a))
        h = hit(w)
        if h.is_zero():
            continue
        h = h * T.bracket_ge(w - lo) * T.bracket_ge(k - 1 - w)
        h = C.CTX.simp(h, solve=True) if not h.is_const() else h
        if h == ONE:
            return w
    return None


def _idempotent(c):
    return (c * c - c).is_zero() and all(T.atom(a).kind == 'ind' for m in c.d for a, _ in m)


def disjoint(hit, kv, lo, hi):
    """hit(k, idx) holds for at most one k"""
    # every monomial has the factor [f(k) == 0] with one solution k
    common = set.intersection(*[{a for a, _ in m} for m in hit.d]) if hit.d else set()
    for a in common:
        A = T.atom(a)
        if A.kind == 'ind' and A.data[0] == 'eq' and kv.id in A.fv and T._solve_eq(A.data[1], kv.id) is not None:
            return True
    j = T.new_index('j', lo, hi)
    h2 = T.subs(hit, {kv.id: P_(j)})
    snap = C.CTX.snapshot()
    try:
        for sgn in (P_(j) - P_(kv) - 1, P_(kv) - P_(j) - 1):
            C.CTX.restore(snap)
            try:
                C.CTX.assume(T.ind_ge(sgn))
                both = C.CTX.simp(hit * h2, solve=True)
                if both.is_zero():
                    continue
                C.CTX.assume(hit)
                C.CTX.assume(h2)
                if C.CTX.feasible():
                    return False
            except C.Infeasible:
                continue
        return True
    finally:
        C.CTX.restore(snap)
