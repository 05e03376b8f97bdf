"""Frame conditions: which objects a function may write to, for all inputs, paths and iterations.

Every function of the package is verified once, against the contracts (summaries) of the functions it calls; the summaries are
the least solution over all functions. Abstract state: for every variable the set of objects it may denote. Objects are
  ('P', i)         the object passed as parameter i
  ('D', i, a)      any object reached from parameter i by attribute a ('[]' for elements) and further
  ('A', site)      an object made at a program point
Writing is a store to an element or attribute, an augmented assignment, a call of a mutating method, an out= or overwrite
argument. The frame condition of a function is that it writes to no ('P', i) and no ('D', i, a) of the caller."""
import ast
import builtins
import copy as copy_mod
import functools
import importlib
import inspect
import textwrap
import types

import numpy as np

MODULES = ['utils', 'sph', 'grids', 'sig', 'process', 'decoder', 'parsa', 'plot', 'io']

# ------------------------------------------------------------------ contracts of library functions
# results that may share memory with the first argument
VIEWS = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'reshape', 'ravel', 'transpose', 'swapaxes',
         'moveaxis', 'rollaxis', 'broadcast_to', 'broadcast_arrays', 'expand_dims', 'real', 'imag', 'diagonal', 'split',
         'array_split', 'hsplit', 'vsplit', 'dsplit', 'flip', 'fliplr', 'flipud', 'rot90', 'ascontiguousarray', 'asfortranarray',
         'require', 'frombuffer', 'real_if_close', 'trim_zeros', 'as_strided', 'sliding_window_view', 'einsum', 'asfarray',
         'asmatrix', 'mat', 'diag', 'meshgrid', 'ix_', 'matrix_transpose', 'permute_dims', 'asarray_chkfinite', 'ctypeslib.as_array',
         'as_array', 'nditer', 'nan_to_num', 'atleast_nd', 'view_as_real'}
# functions that write to their first argument
WRITES0 = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle', 'at', 'setfield'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'fill',
            'put', 'itemset', 'resize', 'setfield', 'partition', 'add', 'discard', 'setflags', '__setitem__', '__delitem__',
            '__setattr__', '__iadd__', '__imul__', 'difference_update', 'intersection_update', 'shuffle'}
STORES = {'append', 'extend', 'insert', 'update', 'setdefault', 'add', '__setitem__'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'diagonal', 'astype', 'get', 'items', 'values', 'keys',
                'setdefault', 'pop', 'popitem', 'byteswap', '__getitem__', '__iter__', '__next__', 'get_obj', 'flatten_view', 'reversed',
                '__enter__', 'next'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'base', 'mT', 'H'}
PLAIN_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'itemsize', 'nbytes', 'strides', 'flags', '__name__', '__class__', '__doc__'}
FRESH_METHODS = {'copy', 'flatten', 'tolist', 'sum', 'mean', 'dot', 'conj', 'conjugate', 'max', 'min', 'argmax', 'argmin', 'any', 'all',
                 'cumsum', 'cumprod', 'prod', 'std', 'var', 'round', 'clip', 'repeat', 'take', 'nonzero', 'argsort', 'trace', 'ptp',
                 'item', 'format', 'join', 'split', 'strip', 'lower', 'upper', 'startswith', 'endswith', 'replace', 'count', 'index',
                 'tobytes', 'searchsorted', 'union', 'intersection', 'difference', 'encode', 'decode', 'compress', 'choose',
                 'isdisjoint', 'issubset', 'rstrip', 'lstrip', 'splitlines', 'is_integer', 'bit_length', 'ljust', 'rjust', 'zfill'}
SCALAR_DOC = ('int', 'float', 'bool', 'str', 'string', 'scalar', 'number')
EMPTY = frozenset()


class Summary:
    def __init__(self):
        self.writes = {}        # caller object -> where
        self.sure = set()       # those of them that are not numbers
        self.items = set()      # those written to other than by assigning an attribute
        self.owned = {}         # (caller object, attribute) -> caller objects stored there and not held by an object made here
        self.ret = EMPTY        # caller objects, 'new' for an object made by the function
        self.new = EMPTY        # caller objects held by a new result
        self.stores = {}        # (caller object, attribute) -> objects stored there (caller objects and 'new')

    def key(self):
        return (frozenset(self.writes), self.ret, self.new, frozenset((k, v) for k, v in self.stores.items()))


class Fn:
    """a function of the package"""

    def __init__(self, mod, name, node, obj, cls=None):
        self.mod, self.name, self.node, self.obj, self.cls = mod, name, node, obj, cls
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.all = self.params + self.kwonly
        deco = {ast.unparse(d) for d in node.decorator_list}
        self.static = 'staticmethod' in deco
        self.classm = 'classmethod' in deco
        self.prop = 'property' in deco
        self.setter = any(d.endswith('.setter') for d in deco)
        self.method = cls is not None and not self.static and not self.classm
        self.scalars = scalar_params(node)
        self.numbers = numbers(node)
        self.sum = Summary()
        self.unknown = set()


@functools.lru_cache(None)
def out_position(obj):
    """position of a parameter called out"""
    try:
        return list(inspect.signature(obj).parameters).index('out')
    except (ValueError, TypeError):
        return None


def scalar_params(node):
    """parameters documented to be numbers or strings"""
    doc = ast.get_docstring(node) or ''
    out = set()
    for line in doc.splitlines():
        if ' : ' in line:
            names, t = line.split(' : ', 1)
            first = t.replace('{', ' ').split(',')[0].split(' or ')[0].strip().split(' ')[0].lower()
            if first in SCALAR_DOC and 'array' not in t.lower() and 'list' not in t.lower():
                out |= {n.strip() for n in names.split(',')}
    # arguments of range() are integers
    a = node.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

    def names(e):
        if isinstance(e, ast.Name):
            return {e.id}
        if isinstance(e, (ast.BinOp, ast.UnaryOp)):
            return set().union(*[names(x) for x in ast.iter_child_nodes(e)])
        return set()
    for e in ast.walk(node):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range':
            for x in e.args:
                out |= names(x) & params
    return out


def numbers(node):
    """parameters with a number as default"""
    a = node.args
    ps = a.posonlyargs + a.args
    pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults))
    return {p.arg for p, d in pairs if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str))}


class World:
    def __init__(self):
        self.fns = {}            # id of python function -> Fn
        self.byname = {}         # method name -> [Fn]
        self.getters, self.setters = {}, {}
        self.classes = {}
        self.public = []
        self.mods = {}
        for m in MODULES:
            mod = importlib.import_module('spaudiopy.' + m)
            self.mods[m] = mod
            tree = ast.parse(inspect.getsource(mod))
            for st in tree.body:
                self.top(m, mod, st)

    def top(self, m, mod, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            obj = getattr(mod, st.name, None)
            self.reg(Fn(m, f'{m}.{st.name}', st, obj), obj)
        elif isinstance(st, ast.ClassDef):
            cls = getattr(mod, st.name, None)
            self.classes[cls] = {}
            for s in st.body:
                if isinstance(s, ast.FunctionDef):
                    obj = cls.__dict__.get(s.name)
                    f = Fn(m, f'{m}.{st.name}.{s.name}', s, obj, cls)
                    if f.setter:
                        f.name += '.setter'
                        self.setters.setdefault(s.name, []).append(f)
                        self.public.append(f)
                        continue
                    obj = getattr(obj, '__func__', obj)
                    self.reg(f, getattr(obj, 'fget', obj))
                    self.classes[cls][s.name] = f
                    if f.prop:
                        self.getters.setdefault(s.name, []).append(f)
                    else:
                        self.byname.setdefault(s.name, []).append(f)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self.top(m, mod, s)

    def reg(self, f, obj):
        f.key = obj
        obj = inspect.unwrap(obj) if obj is not None and not isinstance(obj, property) else obj
        if isinstance(obj, types.FunctionType):
            self.fns[obj.__code__] = f
        self.public.append(f)

    def find(self, obj):
        obj = getattr(obj, '__func__', obj)
        code = getattr(obj, '__code__', None)
        return self.fns.get(code)

    def init_of(self, cls):
        for c in cls.__mro__:
            if c in self.classes and '__init__' in self.classes[c]:
                return self.classes[c]['__init__']

    def solve(self):
        for rnd in range(12):
            changed = False
            for f in self.public:
                old = f.sum.key()
                Body(self, f).run()
                changed |= f.sum.key() != old
            if not changed:
                return
        raise RuntimeError('summaries do not stabilise')


class Return(Exception):
    pass


class Body:
    def __init__(self, w, f):
        self.w, self.f = w, f
        self.globs = vars(w.mods[f.mod])
        self.heap = {}          # (label, attr) -> labels
        self.kind = {}          # label -> 'array' | 'list' | 'obj' | class
        self.fnval = {}         # label -> callable description
        self.holders = set()    # objects made by a callee that hold objects of ours
        self.rets = set()
        self.depth = 0

    # -- driver
    def run(self):
        f = self.f
        env = {}
        for i, p in enumerate(f.all):
            env[p] = EMPTY if p in f.scalars else frozenset([('P', i)])
        if f.vararg:
            l = ('A', f.name, 'vararg')
            self.kind[l] = 'list'
            self.heap[(l, '[]')] = frozenset([('D', len(f.all), '[]')])
            env[f.vararg] = frozenset([l])
        if f.kwarg:
            l = ('A', f.name, 'kwarg')
            self.kind[l] = 'list'
            self.heap[(l, '[]')] = frozenset([('D', len(f.all) + 1, '[]')])
            env[f.kwarg] = frozenset([l])
        if f.classm:
            env[f.params[0]] = frozenset([self.fn(('cls', f.cls))])
        self.block(f.node.body, env)
        s = f.sum
        caller = lambda l: l[0] in 'PD'
        ret = {l for l in self.rets if caller(l)}
        new = set()
        fresh = {l for l in self.rets if not caller(l)}
        if fresh:
            ret.add('new')
            new |= {l for l in self.reach(fresh) if caller(l)}
        s.ret |= ret
        s.new |= new
        for (l, a), v in self.heap.items():
            if caller(l):
                vv = {x for x in v if caller(x)} | {x for x in self.reach({y for y in v if not caller(y)}) if caller(x)}
                if any(not caller(x) for x in v):
                    vv.add('new')
                s.stores[(l, a)] = s.stores.get((l, a), EMPTY) | vv
                s.owned[(l, a)] = frozenset(x for x in self.reach(v, stop=True) if caller(x))

    def write(self, labels, node, what, attr=False, sure=True):
        # (adding to a number makes a new one)
        rebind = isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name)
        for l in labels:
            if l[0] in 'PD':
                if not attr:
                    self.f.sum.items.add(l)
                if sure and l[0] == 'P' and not (rebind and l[1] < len(self.f.all) and self.f.all[l[1]] in self.f.numbers):
                    self.f.sum.sure.add(l)
                self.f.sum.writes.setdefault(l, f'line {getattr(node, "lineno", "?")}: {what}')

    # -- heap
    def new(self, node, kind, tag=''):
        l = ('A', self.f.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag)
        self.kind.setdefault(l, kind)
        if self.kind[l] != kind:
            self.kind[l] = 'obj'
        return l

    def fn(self, desc):
        l = ('A', 'fn', str(len(self.fnval)) if not isinstance(desc[1], type) else str(desc[1]))
        self.fnval[l] = desc
        self.kind[l] = 'obj'
        return l

    def load(self, labels, attr, env=None):
        out = set()
        for l in labels:
            if env is not None and ('ov', l, attr) in env:
                out |= env[('ov', l, attr)]
                continue
            if l[0] == 'P':
                out.add(('D', l[1], attr))
                out |= self.heap.get((l, attr), EMPTY)
            elif l[0] == 'D':
                out.add(l)
                out |= self.heap.get((l, attr), EMPTY)
            else:
                out |= self.heap.get((l, attr), EMPTY) | self.heap.get((l, '*'), EMPTY)
            if attr == '[]':
                for (x, a), v in self.heap.items():
                    if x == l and a.startswith("['"):
                        out |= v
        return frozenset(out)

    def elements(self, labels):
        """x[i], or an item of an iteration"""
        out = set()
        for l in labels:
            k = self.kind.get(l)
            if l[0] == 'P':
                out |= {l}
            if k == 'array':
                out.add(l)
            elif k not in ('list',) and l[0] == 'A':
                out.add(l)
            out |= self.load([l], '[]')
        return frozenset(out)

    def slice(self, labels, node):
        """x[a:b]: view of an array, new list of a list"""
        out = set()
        for l in labels:
            out.add(l)
            out |= self.load([l], '[]') if l[0] != 'A' or self.kind.get(l) != 'array' else EMPTY
        return frozenset(out)

    def store(self, labels, attr, v):
        for l in labels:
            if self.kind.get(l) == 'array' and attr == '[]':
                continue
            self.heap[(l, attr)] = self.heap.get((l, attr), EMPTY) | frozenset(v)

    def reach(self, labels, stop=False):
        seen, todo = set(), list(labels)
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if stop and (isinstance(self.kind.get(l), type) or l in self.holders):
                continue
            if l[0] == 'P':
                todo.append(('D', l[1], '*'))
            for (x, a), v in list(self.heap.items()):
                if x == l:
                    todo.extend(v)
        return seen

    # -- statements
    def block(self, body, env):
        """True if the end may be reached"""
        for st in body:
            if not self.stmt(st, env):
                return False
        return True

    def join(self, env, envs):
        keys = set().union(*[set(e) for e in envs]) if envs else set()
        env_new = {}
        for k in keys:
            if isinstance(k, tuple):
                vals = [e[k] if k in e else self.load([k[1]], k[2]) for e in envs]
            else:
                vals = [e.get(k, EMPTY) for e in envs]
            env_new[k] = frozenset().union(*vals)
        env.clear()
        env.update(env_new)

    def loop(self, body, env, bind=None, orelse=()):
        for _ in range(20):
            e = dict(env)
            if bind:
                bind(e)
            self.breaks, old = [], getattr(self, 'breaks', [])
            ok = self.block(body, e)
            ends = ([e] if ok else []) + self.breaks
            self.breaks = old
            before = dict(env)
            self.join(env, [dict(env)] + ends)
            if env == before:
                break
        self.block(orelse, env)

    def stmt(self, st, env):
        t = type(st)
        if t is ast.Expr:
            self.ev(st.value, env)
        elif t is ast.Assign:
            v = self.ev(st.value, env)
            for x in st.targets:
                self.assign(x, v, env, st.value)
        elif t is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env, st.value)
        elif t is ast.AugAssign:
            v = self.ev(st.value, env)
            x = st.target
            if isinstance(x, ast.Name):
                cur = self.name(x.id, env)
                self.write(cur, st, f'{x.id} {ast.unparse(st)[:60]}')
                self.store(cur, '[]', self.elements(v))
                env[x.id] = cur
            elif isinstance(x, ast.Attribute):
                o = self.ev(x.value, env)
                cur = self.load(o, x.attr, env)
                self.write(cur, st, ast.unparse(st)[:60])
                self.write(o, st, ast.unparse(st)[:60])
                self.setattr(o, x.attr, cur, env, st)
            else:
                o = self.ev(x.value, env)
                self.ev(x.slice, env)
                self.write(o, st, ast.unparse(st)[:60])
                inner = {l for l in self.load(o, '[]') if l[0] != 'D'} if not isinstance(x.slice, (ast.Slice, ast.Tuple)) else EMPTY
                self.write(inner, st, ast.unparse(st)[:60])
        elif t is ast.Return:
            if st.value is not None:
                self.rets |= self.ev(st.value, env)
            return False
        elif t is ast.If:
            self.ev(st.test, env)
            e1, e2 = dict(env), dict(env)
            self.refine(st.test, e1, True)
            self.refine(st.test, e2, False)
            ends = [e for e, b in ((e1, st.body), (e2, st.orelse)) if self.block(b, e)]
            if not ends:
                return False
            self.join(env, ends)
        elif t in (ast.For, ast.AsyncFor):
            it = self.ev(st.iter, env)
            el = self.elements(it)
            self.loop(st.body, env, lambda e: self.assign(st.target, el, e, None), st.orelse)
        elif t is ast.While:
            self.ev(st.test, env)
            self.loop(st.body, env, None, st.orelse)
        elif t in (ast.With, ast.AsyncWith):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(st.body, env)
        elif t is ast.Try:
            e0 = dict(env)
            ok = self.block(st.body, env)
            if ok:
                ok = self.block(st.orelse, env)
            ends = [dict(env)] if ok else []
            for h in st.handlers:
                e = dict(e0)
                self.join(e, [e0, dict(env)])
                if h.name:
                    e[h.name] = EMPTY
                if self.block(h.body, e):
                    ends.append(e)
            if not ends:
                e = dict(env)
                self.block(st.finalbody, e)
                return False
            self.join(env, ends)
            return self.block(st.finalbody, env)
        elif t in (ast.FunctionDef, ast.AsyncFunctionDef):
            for d in st.args.defaults:
                self.ev(d, env)
            env[st.name] = frozenset([self.fn(('local', st, env))])
        elif t is ast.ClassDef:
            env[st.name] = EMPTY
        elif t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Name):
                    env.pop(x.id, None)
                else:
                    self.write(self.ev(x.value, env), st, ast.unparse(st)[:60])
        elif t is ast.Assert:
            self.ev(st.test, env)
        elif t is ast.Raise:
            if st.exc is not None:
                self.ev(st.exc, env)
            return False
        elif t in (ast.Break, ast.Continue):
            self.breaks = getattr(self, 'breaks', [])
            self.breaks.append(dict(env))
            return False
        elif t is ast.Global:
            self.globals_ = getattr(self, 'globals_', set()) | set(st.names)
        elif t in (ast.Import, ast.ImportFrom):
            for a in st.names:
                n = (a.asname or a.name).split('.')[0]
                try:
                    if t is ast.Import:
                        obj = importlib.import_module(a.name if a.asname else n)
                    else:
                        m = importlib.import_module(('spaudiopy' if st.level else '') + ('.' if st.level and st.module else '') + (st.module or ''))
                        obj = getattr(m, a.name)
                except Exception:
                    obj = None
                env[n] = frozenset([self.fn(('real', obj))]) if obj is not None else EMPTY
        return True

    def refine(self, test, env, val):
        """x is None in one branch: no object there"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, env, not val)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant):
            c = test.comparators[0].value
            same = isinstance(test.ops[0], (ast.Is, ast.Eq))
            diff = isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
            if (c is None or isinstance(c, str)) and ((same and val) or (diff and not val)):
                env[test.left.id] = EMPTY

    def setattr(self, o, attr, v, env, node):
        fs = self.w.setters.get(attr)
        if fs:
            for l in o:
                for f in fs:
                    self.apply(f, [frozenset([l]), v], {}, env, node, 'setter')
        self.store(o, attr, v)
        if len(o) == 1 and not fs:
            l, = o
            if l[0] == 'P':
                env[('ov', l, attr)] = frozenset(v)

    def assign(self, x, v, env, src):
        if isinstance(x, ast.Name):
            env[x.id] = v
        elif isinstance(x, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts) and not any(isinstance(e, ast.Starred) for e in src.elts + x.elts):
                vals = [self.ev(e, env) for e in src.elts]
                for e, q, s in zip(x.elts, vals, src.elts):
                    self.assign(e, q, env, s)
            else:
                el = self.elements(v)
                tup = [self.heap.get((l, 'items')) for l in v]
                for j, e in enumerate(x.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, el, env, None)
                    else:
                        per = self.tuple_item(v, j, len(x.elts))
                        self.assign(e, el if per is None else per, env, None)
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value, env)
            self.write(o, x, f'{ast.unparse(x)} = ...', attr=True)
            self.setattr(o, x.attr, v, env, x)
        elif isinstance(x, ast.Subscript):
            o = self.ev(x.value, env)
            self.ev(x.slice, env)
            self.write(o, x, f'{ast.unparse(x)[:60]} = ...')
            c = x.slice.value if isinstance(x.slice, ast.Constant) else None
            self.store(o, f"['{c}']" if isinstance(c, str) else '[]', v)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, v, env, None)

    def tuple_item(self, v, j, n):
        out = set()
        for l in v:
            t = self.tuples.get(l) if hasattr(self, 'tuples') else None
            if t is None or len(t) != n:
                return None
            out |= t[j]
        return frozenset(out)

    # -- expressions
    def name(self, n, env):
        if n in env:
            return env[n]
        return EMPTY

    def real(self, n, env):
        """python object denoted by an expression, if it is a module level name"""
        if isinstance(n, ast.Name):
            if n.id in env:
                for l in env[n.id]:
                    d = self.fnval.get(l)
                    if d and d[0] == 'real':
                        return d[1]
                    if d and d[0] == 'cls':
                        return d[1]
                return None
            if n.id in self.globs:
                return self.globs[n.id]
            return getattr(builtins, n.id, None)
        if isinstance(n, ast.Attribute):
            o = self.real(n.value, env)
            if o is None:
                return None
            if isinstance(o, (types.ModuleType, type)) or type(o).__name__ in ('ufunc',):
                return getattr(o, n.attr, None)
        return None

    def ev(self, n, env):
        t = type(n)
        if t is ast.Name:
            return self.name(n.id, env)
        if t is ast.Constant or n is None:
            return EMPTY
        if t is ast.Attribute:
            if self.real(n, env) is not None:
                return EMPTY
            o = self.ev(n.value, env)
            if n.attr in PLAIN_ATTRS:
                return EMPTY
            out = set()
            if n.attr in VIEW_ATTRS:
                out |= o
            getters = self.w.getters.get(n.attr)
            if getters:
                for f in getters:
                    out |= self.apply(f, [o], {}, env, n, f.name)
            out |= self.load(o, n.attr, env)
            return frozenset(out)
        if t is ast.Subscript:
            o = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Slice):
                return self.slice(o, n)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                return self.load(o, f"['{n.slice.value}']") | frozenset(l for l in o if l[0] != 'A').union(
                    *[self.heap.get((l, '[]'), EMPTY) for l in o])
            if isinstance(n.slice, ast.Tuple):
                # only arrays have several indices
                return frozenset(l for l in o)
            if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
                out = set()
                for l in o:
                    tp = getattr(self, 'tuples', {}).get(l)
                    if tp is not None and -len(tp) <= n.slice.value < len(tp):
                        out |= tp[n.slice.value]
                    else:
                        out |= self.elements([l])
                return frozenset(out)
            return self.elements(o)
        if t in (ast.Slice,):
            for x in (n.lower, n.upper, n.step):
                self.ev(x, env)
            return EMPTY
        if t is ast.BinOp:
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            l = self.new(n, 'array')
            if isinstance(n.op, (ast.Add, ast.Mult)):
                lists = lambda q: {x for x in q if self.kind.get(x) == 'list'}
                if lists(a) or lists(b):
                    l = self.new(n, 'list', 'l')
                    self.store([l], '[]', self.elements(lists(a) | lists(b)) | (self.elements(a | b) if lists(a) or lists(b) else EMPTY))
            return frozenset([l])
        if t is ast.UnaryOp:
            self.ev(n.operand, env)
            return EMPTY if isinstance(n.op, ast.Not) else frozenset([self.new(n, 'array')])
        if t is ast.BoolOp:
            return frozenset().union(*[self.ev(x, env) for x in n.values])
        if t is ast.Compare:
            for x in [n.left] + n.comparators:
                self.ev(x, env)
            return frozenset([self.new(n, 'array')])
        if t is ast.IfExp:
            self.ev(n.test, env)
            e1, e2 = dict(env), dict(env)
            self.refine(n.test, e1, True)
            self.refine(n.test, e2, False)
            return self.ev(n.body, e1) | self.ev(n.orelse, e2)
        if t in (ast.List, ast.Tuple, ast.Set):
            l = self.new(n, 'list')
            vals = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = self.elements(self.ev(x.value, env))
                    vals = None
                else:
                    v = self.ev(x, env)
                    if vals is not None:
                        vals.append(v)
                self.store([l], '[]', v)
            if t is ast.Tuple and vals is not None:
                self.tuples = getattr(self, 'tuples', {})
                self.tuples[l] = [a | b for a, b in zip(vals, self.tuples.get(l, [EMPTY] * len(vals)))]
            return frozenset([l])
        if t is ast.Dict:
            l = self.new(n, 'list')
            for k, x in zip(n.keys, n.values):
                self.ev(k, env)
                v = self.ev(x, env)
                c = k.value if isinstance(k, ast.Constant) else None
                self.store([l], f"['{c}']" if isinstance(c, str) else '[]', v if k is not None else self.elements(v))
            return frozenset([l])
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            for g in n.generators:
                self.assign(g.target, self.elements(self.ev(g.iter, e)), e, None)
                for c in g.ifs:
                    self.ev(c, e)
            l = self.new(n, 'list')
            if t is ast.DictComp:
                self.ev(n.key, e)
                self.store([l], '[]', self.ev(n.value, e))
            else:
                self.store([l], '[]', self.ev(n.elt, e))
            return frozenset([l])
        if t is ast.Lambda:
            return frozenset([self.fn(('local', n, env))])
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.assign(n.target, v, env, n.value)
            return v
        if t in (ast.JoinedStr, ast.FormattedValue):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return EMPTY
        if t is ast.Starred:
            return self.ev(n.value, env)
        if t in (ast.Yield, ast.YieldFrom, ast.Await):
            v = self.ev(n.value, env)
            self.rets |= v
            return EMPTY
        if t is ast.Call:
            return self.call(n, env)
        raise NotImplementedError(t.__name__)

    # -- calls
    def args(self, n, env):
        pos, star = [], EMPTY
        for x in n.args:
            if isinstance(x, ast.Starred):
                star = star | self.elements(self.ev(x.value, env))
            else:
                pos.append(self.ev(x, env) if not star else self.ev(x, env) | star)
        kw, dstar = {}, EMPTY
        for k in n.keywords:
            if k.arg is None:
                dstar = dstar | self.elements(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return pos, kw, star, dstar

    def call(self, n, env):
        pos, kw, star, dstar = self.args(n, env)
        rest = star | dstar
        flags = {k.arg: k.value for k in n.keywords if k.arg}
        # library conventions for writing to arguments
        for k in ('out',):
            if k in kw:
                self.write(kw[k], n, f'{k}= argument')
        real = self.real(n.func, env)
        if real is not None:
            return self.known(real, pos, kw, rest, env, n, flags)
        f = n.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and self.real(f.value.func, env) is super:
                cls = self.f.cls
                for c in cls.__mro__[1:]:
                    g = self.w.classes.get(c, {}).get(f.attr)
                    if g is not None:
                        return self.apply(g, [self.name(self.f.params[0], env)] + pos, kw, env, n, g.name, rest)
                return EMPTY
            o = self.ev(f.value, env)
            return self.methodcall(o, f.attr, pos, kw, rest, env, n, flags)
        fv = self.ev(f, env)
        out = set()
        for l in fv:
            d = self.fnval.get(l)
            if d is not None:
                out |= self.invoke(d, pos, kw, rest, env, n, flags)
            elif l[0] in 'PD':
                # a function of the caller: what it does to its arguments is the caller's business
                x = self.new(n, 'obj', 'cb')
                self.store([x], '*', frozenset().union(*pos, *kw.values(), rest, EMPTY))
                out.add(x)
                out |= frozenset().union(*pos, *kw.values(), rest, EMPTY)
        return frozenset(out)

    def invoke(self, d, pos, kw, rest, env, n, flags):
        if d[0] == 'local':
            return self.inline(d[1], d[2], pos, kw, rest, n)
        if d[0] in ('real', 'cls'):
            return self.known(d[1], pos, kw, rest, env, n, flags)
        if d[0] == 'partial':
            _, g, p0, k0 = d
            out = set()
            for e in g:
                out |= self.invoke(e, p0 + pos, {**k0, **kw}, rest, env, n, flags)
            return frozenset(out)
        return EMPTY

    def descs(self, node, env):
        """callable descriptions of an expression"""
        r = self.real(node, env)
        if r is not None:
            return [('real', r)]
        return [self.fnval[l] for l in self.ev(node, env) if l in self.fnval]

    def inline(self, node, cenv, pos, kw, rest, n):
        if self.depth > 6:
            return EMPTY
        self.depth += 1
        try:
            e = dict(cenv)
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            nd = len(a.defaults)
            for j, p in enumerate(ps):
                e[p] = (pos[j] if j < len(pos) else EMPTY) | kw.get(p, EMPTY) | rest
                if nd and j >= len(ps) - nd and j >= len(pos) and p not in kw:
                    e[p] = e[p] | self.ev(a.defaults[j - len(ps) + nd], cenv)
            for x in a.kwonlyargs:
                e[x.arg] = kw.get(x.arg, EMPTY) | rest
            if a.vararg:
                l = self.new(node, 'list', 'va')
                self.store([l], '[]', frozenset().union(*pos[len(ps):], rest, EMPTY))
                e[a.vararg.arg] = frozenset([l])
            if a.kwarg:
                l = self.new(node, 'list', 'kw')
                self.store([l], '[]', frozenset().union(*kw.values(), rest, EMPTY))
                e[a.kwarg.arg] = frozenset([l])
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, e)
            old, self.rets = self.rets, set()
            ob, self.breaks = getattr(self, 'breaks', []), []
            try:
                self.block(node.body, e)
                r = frozenset(self.rets)
            finally:
                self.rets, self.breaks = old, ob
            # assignments to closure variables (nonlocal) and their objects are in the heap; names are joined
            for st in ast.walk(node):
                if isinstance(st, ast.Nonlocal):
                    for x in st.names:
                        cenv[x] = cenv.get(x, EMPTY) | e.get(x, EMPTY)
            return r
        finally:
            self.depth -= 1

    def apply(self, f, pos, kw, env, n, what, rest=EMPTY):
        """call of a package function by its contract"""
        s = f.sum
        m = {}
        for j, p in enumerate(f.all):
            v = EMPTY
            if j < len(pos) and j < len(f.params):
                v = v | pos[j]
            if p in kw:
                v = v | kw[p]
            if rest and not (f.method and j == 0) and (j >= len(pos)):
                v = v | rest
            m[j] = v
        m[len(f.all)] = frozenset().union(*pos[len(f.params):], rest, EMPTY)
        m[len(f.all) + 1] = frozenset().union(*[v for k, v in kw.items() if k not in f.all], rest, EMPTY)

        def img(l):
            if l[0] == 'P':
                return m.get(l[1], EMPTY)
            v = m.get(l[1], EMPTY)
            if l[1] >= len(f.all):
                return v | frozenset(self.reach(v))
            if l[2] == '*':
                return frozenset(self.reach(v)) - v | frozenset(x for x in v if x[0] == 'D')
            first = self.load(v, l[2], env)
            if l[2] == '[]':
                first = first | self.elements(v)
            return first | frozenset(x for x in self.reach(first))
        for l, where in s.writes.items():
            self.write(img(l), n, f'{what}() writes to its argument ({where})', attr=l not in s.items, sure=l in s.sure)
        for (l, a), v in s.stores.items():
            tgt = img(l) if l[0] == 'P' else img(l)
            vals = set()
            y = None
            for x in v:
                if x == 'new':
                    y = self.new(n, 'obj', f'st{a}')
                    vals.add(y)
            own = s.owned.get((l, a), v)
            for x in v:
                if x in own:
                    vals |= img(x)
                elif x != 'new':
                    y = y or self.new(n, 'obj', f'st{a}')
                    vals.add(y)
                    # held by an object the callee made
                    self.holders.add(y)
                    self.store([y], '*', img(x))
                    self.store([y], '[]', img(x))
            self.store(tgt, a, vals)
            if l[0] == 'P' and len(m.get(l[1], ())) == 1:
                q, = m[l[1]]
                if ('ov', q, a) in env:
                    env[('ov', q, a)] = env[('ov', q, a)] | frozenset(vals)
                elif q[0] == 'P':
                    env[('ov', q, a)] = frozenset(vals) | self.load([q], a)
        out = set()
        for l in s.ret:
            if l == 'new':
                y = self.new(n, 'obj', 'r')
                held = set()
                for x in s.new:
                    held |= img(x)
                self.store([y], '*', held)
                self.store([y], '[]', held)
                out.add(y)
            else:
                out |= img(l)
        return frozenset(out)

    def known(self, obj, pos, kw, rest, env, n, flags):
        """call of a python object known by name"""
        everything = frozenset().union(*pos, *kw.values(), rest, EMPTY)
        f = self.w.find(obj)
        if f is not None:
            if f.classm:
                pos = [EMPTY] + pos
            return self.apply(f, pos, kw, env, n, f.name, rest)
        if isinstance(obj, type) and obj in self.w.classes:
            y = self.new(n, obj)
            init = self.w.init_of(obj)
            if init is not None:
                self.apply(init, [frozenset([y])] + pos, kw, env, n, init.name, rest)
            return frozenset([y])
        if obj is functools.partial:
            return frozenset([self.fn(('partial', self.descs(n.args[0], env), pos[1:], kw))])
        name = getattr(obj, '__name__', '')
        mod = getattr(obj, '__module__', '') or ''
        if obj is copy_mod.deepcopy:
            return frozenset([self.new(n, 'obj')])
        if obj is copy_mod.copy:
            y = self.new(n, 'obj')
            self.store([y], '*', frozenset(self.reach(pos[0]) - pos[0]) | frozenset(x for x in pos[0] if x[0] == 'D'))
            return frozenset([y])
        if obj in (list, tuple, set, frozenset, dict, sorted, reversed, enumerate, zip, iter, filter):
            y = self.new(n, 'list')
            args = pos + list(kw.values()) + [rest]
            if obj is filter:
                args = pos[1:]
            els = [self.elements(a) for a in args]
            if obj in (zip, enumerate):
                z = self.new(n, 'list', 'row')
                self.store([z], '[]', frozenset().union(*els, EMPTY))
                if obj is enumerate:
                    self.tuples = getattr(self, 'tuples', {})
                    self.tuples[z] = [EMPTY, els[0]]
                elif len(n.args) == len(pos):
                    self.tuples = getattr(self, 'tuples', {})
                    self.tuples[z] = els[:len(pos)]
                els = [frozenset([z])]
            self.store([y], '[]', frozenset().union(*els, EMPTY))
            return frozenset([y])
        if obj is map:
            out = self.callback(n.args[0], [self.elements(a) for a in pos[1:]], env, n)
            y = self.new(n, 'list')
            self.store([y], '[]', out)
            return frozenset([y])
        if obj in (min, max, next, sum):
            return self.elements(pos[0]) if pos else EMPTY
        if obj is getattr:
            return frozenset(self.reach(pos[0])) | (pos[2] if len(pos) > 2 else EMPTY)
        if obj in (setattr, delattr):
            self.write(pos[0], n, f'{name}()')
            if obj is setattr:
                self.store(pos[0], '*', pos[2])
            return EMPTY
        if mod in ('operator', '_operator') and (name.startswith('i') and name not in ('index', 'inv', 'invert', 'is_', 'is_not', 'indexOf', 'itemgetter')
                                                 or name in ('setitem', 'delitem')):
            self.write(pos[0] if pos else EMPTY, n, f'operator.{name}()')
            return pos[0] if pos else EMPTY
        if mod == 'builtins' or isinstance(obj, type) and obj.__module__ == 'builtins':
            return EMPTY
        npy = mod.split('.')[0] in ('numpy', 'scipy', 'math', 'cmath') or isinstance(obj, np.ufunc)
        if npy:
            if name in WRITES0:
                self.write(pos[0] if pos else EMPTY, n, f'{name}()')
                return EMPTY
            for k, v in flags.items():
                if k.startswith('overwrite') and not (isinstance(v, ast.Constant) and not v.value):
                    self.write(everything, n, f'{k}= argument')
            if not isinstance(obj, np.ufunc):
                k = out_position(obj)
                if k is not None and len(pos) > k:
                    self.write(pos[k], n, 'output argument')
            if isinstance(obj, np.ufunc) and len(pos) > obj.nin:
                self.write(frozenset().union(*pos[obj.nin:]), n, 'output argument')
            if name == 'nan_to_num':
                c = flags.get('copy')
                if c is not None and not (isinstance(c, ast.Constant) and c.value):
                    self.write(pos[0], n, 'nan_to_num(copy=False)')
                    return pos[0]
                return frozenset([self.new(n, 'array')])
            if name == 'array':
                c = flags.get('copy')
                y = frozenset([self.new(n, 'array')])
                return y if c is None or isinstance(c, ast.Constant) and c.value is True else y | pos[0]
            if name in ('meshgrid', 'ix_', 'broadcast_arrays', 'split', 'array_split', 'hsplit', 'vsplit', 'atleast_1d', 'atleast_2d',
                        'atleast_3d') and name not in ('meshgrid',):
                y = self.new(n, 'list')
                self.store([y], '[]', everything)
                return frozenset([y]) | everything
            if name in VIEWS and name != 'meshgrid':
                arg = everything if name == 'einsum' else (pos[0] if pos else everything)
                # (a list becomes a new array)
                keep = frozenset(l for l in arg if self.kind.get(l) != 'list')
                return keep | frozenset([self.new(n, 'array')])
            if isinstance(obj, type) and not issubclass(obj, (np.generic, np.ndarray)):
                y = self.new(n, 'obj')
                self.store([y], '*', everything)
                return frozenset([y])
            if name in ('vectorize', 'apply_along_axis', 'fromfunction') or name.startswith(('fmin', 'minimize', 'quad', 'least_squares')):
                cbs = self.callback(n.args[0], [e for e in pos[1:]] + [EMPTY], env, n)
            y = self.new(n, 'array')
            return frozenset([y])
        self.f.unknown.add(f'{mod}.{name}')
        y = self.new(n, 'obj')
        self.store([y], '*', everything)
        self.store([y], '[]', everything)
        return frozenset([y])

    def callback(self, node, args, env, n):
        out = set()
        for d in self.descs(node, env):
            out |= self.invoke(d, list(args), {}, EMPTY, env, n, {})
        return frozenset(out)

    def methodcall(self, o, name, pos, kw, rest, env, n, flags):
        everything = frozenset().union(*pos, *kw.values(), rest, EMPTY)
        out = set()
        fs = self.w.byname.get(name, [])
        rec = set()
        plain = set()
        for l in o:
            k = self.kind.get(l)
            if isinstance(k, type):
                for c in k.__mro__:
                    if c in self.w.classes and name in self.w.classes[c]:
                        out |= self.apply(self.w.classes[c][name], [frozenset([l])] + pos, kw, env, n, name, rest)
                        break
                else:
                    plain.add(l)
            elif l[0] == 'A' and k in ('array', 'list'):
                plain.add(l)
            else:
                rec.add(l)
                plain.add(l)
        if rec and fs:
            own = self.f.cls if self.f.method and rec == {('P', 0)} else None
            cands = fs
            if own is not None:
                sub = [f for f in fs if issubclass(own, f.cls) or issubclass(f.cls, own)]
                cands = sub or fs
                plain -= rec if sub else set()
            for f in cands:
                out |= self.apply(f, [frozenset(rec)] + pos if not f.static and not f.classm else pos, kw, env, n, f.name, rest)
        if not plain:
            return frozenset(out)
        ok_pkg = bool(rec and fs and name in ('copy', 'apply', 'update', 'resample', 'trim', 'save', 'conv'))
        if name in MUTATORS:
            self.write(plain, n, f'.{name}()')
            if name in STORES:
                v = everything if name not in ('extend', 'update') else frozenset().union(*[self.elements(p) for p in pos], *kw.values(), rest, EMPTY)
                self.store(plain, '[]', v)
        if name in ('map', 'imap', 'starmap', 'map_async', 'apply', 'apply_async', 'submit', 'starmap_async', 'imap_unordered') and n.args:
            els = [self.elements(p) for p in pos[1:]]
            ds = self.descs(n.args[0], env)
            if ds:
                res = set()
                for d in ds:
                    deep = frozenset(x for e in els + pos[1:] for x in self.reach(e)) if els else EMPTY
                    res |= self.invoke(d, els, kw, deep if 'star' in name else EMPTY, env, n, {})
                y = self.new(n, 'list')
                self.store([y], '[]', res)
                out.add(y)
                return frozenset(out)
        if name == 'copy':
            y = self.new(n, 'list' if any(self.kind.get(l) == 'list' for l in plain) else 'obj')
            src = {l for l in plain if self.kind.get(l) != 'array'}
            held = set()
            for l in src:
                held |= {x for x in self.load([l], '[]')} if l[0] == 'A' else {('D', l[1], '[]')}
            y2 = self.new(n, 'array', 'c') if not any(self.kind.get(l) in ('list',) for l in plain) else y
            if y2 is y:
                self.store([y], '[]', held)
            out.add(y2)
        elif name in VIEW_METHODS:
            if name == 'astype' and not ('copy' in flags):
                out.add(self.new(n, 'array'))
            elif name in ('get', 'items', 'values', 'keys', 'pop', 'popitem', 'setdefault', '__getitem__', '__iter__', 'next', '__next__'):
                if name == 'items':
                    z, y = self.new(n, 'list', 'row'), self.new(n, 'list')
                    self.store([z], '[]', self.load(plain, '[]'))
                    self.store([y], '[]', [z])
                    out.add(y)
                elif name in ('values', 'keys'):
                    y = self.new(n, 'list')
                    self.store([y], '[]', self.load(plain, '[]'))
                    out.add(y)
                else:
                    out |= self.load(plain, '[]') | everything
            else:
                out |= plain
        elif name in FRESH_METHODS or name in MUTATORS:
            out.add(self.new(n, 'array'))
        elif fs and not (plain - rec):
            pass
        else:
            # method of a library object: does not write to its arguments; the result may refer to anything it knows
            self.f.unknown.add(f'.{name}()')
            y = self.new(n, 'obj', 'm')
            self.store([y], '*', frozenset(self.reach(plain)) | everything)
            self.store([y], '[]', frozenset(self.reach(plain)) | everything)
            out.add(y)
        return frozenset(out)


_world = None


def world():
    global _world
    if _world is None:
        _world = World()
        _world.solve()
    return _world


if __name__ == '__main__':
    w = world()
    for f in w.public:
        bad = {l: x for l, x in f.sum.writes.items() if not (f.method and l[1] == 0)}
        own = {l: x for l, x in f.sum.writes.items() if f.method and l[1] == 0}
        if bad:
            print('BAD', f.name, {(f.all[l[1]] if l[1] < len(f.all) else '*', *l[2:]): x for l, x in bad.items()})
        if own and f.node.name != '__init__':
            print('   self', f.name, {l: x for l, x in own.items()})
