"""Contract of multiprocessing as the library uses it.

A pool runs every work item exactly once, in any order, interleaved in any way, in processes that see the memory of the caller as it
was, share only multiprocessing.Array memory with it, and return the results in the order of the items.  The effect on shared memory
is that of the items one after another provided that (checked here, for arbitrary two items)
 - no item reads a shared cell that another item may write, and no two items write the same cell, or
 - every item only adds a value that does not depend on shared cells, reading and writing within one critical section of a lock that
   all processes share.
Writes of a work item to other memory are lost; code doing so is not accepted."""
import itertools
import multiprocessing
import multiprocessing.pool
import multiprocessing.synchronize
import numpy as np
from . import terms as T
from . import core as C
from . import sym as Y
from . import interp as IP
from .terms import P_, ZERO, ONE, Unsupported
from .sym import S, Arr, SList, SIter, lift
from .interp import handles

LOCKS = (multiprocessing.synchronize.Lock, multiprocessing.synchronize.RLock)


class Shared:
    """multiprocessing.Array: zeros in memory shared by all processes"""

    def __init__(self, n):
        self.n, self.arr, self.lock = P_(lift(n)), None, Lock(self)

    def get_obj(self):
        return self

    def get_lock(self):
        return self.lock


class Buffer:
    """numpy.frombuffer of shared memory, before it gets its shape"""

    def __init__(self, base):
        self.base = base

    def reshape(self, *shape, order='C'):
        Y._c_order(order)
        if order != 'C':
            raise Unsupported('order of shared memory')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(Y.dim(lift(s)) for s in shape)
        b = self.base
        if b.arr is None:
            n = ONE
            for s in shape:
                n = n * P_(s)
            if not C.prove_zero(n - b.n):
                raise Unsupported(f'shape of shared memory {n} {b.n}')
            b.arr = Arr(shape, lambda i: ZERO, 'R')
            b.arr.shared = b
        elif len(shape) != b.arr.ndim or not all(Y.same_dim(x, y) for x, y in zip(shape, b.arr.shape_)):
            raise Unsupported('shared memory with two shapes')
        return b.arr


class Lock:
    """a lock shared by all processes"""

    def __init__(self, key=None):
        self.key = key

    def __enter__(self):
        if PAR[-1] is not None:
            PAR[-1].acquire(self)
        return True

    def __exit__(self, *a):
        if PAR[-1] is not None:
            PAR[-1].release(self)

    acquire = lambda self, *a, **k: self.__enter__()
    release = lambda self: self.__exit__()


PAR = [None]         # the region of work items being examined
NATIVE = {}          # locks made when the library was loaded: inherited by every process


def lock_of(x):
    if isinstance(x, Lock):
        return x
    if isinstance(x, LOCKS):
        return NATIVE.setdefault(id(x), Lock(x))
    return None


class Region:
    def __init__(self):
        self.held, self.sections, self.unlocked = [], 0, False
        self.saved = {}

    def shared(self, a):
        return getattr(a.owner(), 'shared', None)

    def acquire(self, lock):
        self.held.append(lock)
        if len(self.held) > 1:
            return
        self.sections += 1
        self.saved = {}
        for b in SHARED:
            if b.arr is None:
                continue
            a = b.arr
            nm = f'locked!{id(b)}!{self.sections}!{IP.StateApp.n}'
            self.saved[id(b)] = (a, a.fn, nm)
            if C.CTX.journal is not None:
                C.CTX.journal.append((a, a.fn))
            IP.STATE_NAMES.add(nm)
            a.fn = Y.memo(lambda i, nm=nm: T.app(nm, *i, sort='R'))

    def release(self, lock):
        if not self.held or self.held[-1] is not lock:
            raise Unsupported('nesting of locks')
        self.held.pop()
        if self.held:
            return
        for a, old, nm in self.saved.values():
            iv, t = Y.gen_term(a)
            t = IP.pinned(C.CTX.simp(t, solve=True), [x.id for x in iv])
            cell = T.app(nm, *[P_(x) for x in iv]).as_atom()
            r = IP.split_linear(t, cell.id)
            if r is None or r[0] != ONE and not (C.CTX.simp(r[0], solve=True) - ONE).is_zero() or IP.has_state(r[1], IP.STATE_NAMES | names_of(old, a)):
                raise C.Violation('work items do more than add to shared memory: the result depends on their order')
            ids = [x.id for x in iv]
            d = r[1]
            # other work items may have come before this critical section: the new content is the current one plus the addend
            a.fn = Y.memo(lambda i, old=old, d=d, ids=ids: old(i) + T.subs(d, dict(zip(ids, i))))
        self.saved = {}

    def write(self, a):
        if self.shared(a) is not None and not self.held:
            self.unlocked = True


def names_of(fn, a):
    """names of the loop state a content is made of"""
    iv = [T.new_index('g', 0, P_(d)) for d in a.shape_]
    t = fn(tuple(P_(x) for x in iv))
    return {x.data[0] for x in map(T.atom, IP_deep(t)) if x.kind == 'app' and isinstance(x.data[0], str) and '!' in x.data[0]}


def IP_deep(t):
    from .vc import deep_atoms
    return deep_atoms(t)


SHARED = []
Y.WRITE_HOOK = lambda a: PAR[-1] is not None and PAR[-1].write(a)


def reset():
    SHARED.clear()
    IP.STATE_NAMES.clear()
    IP.OVERLAY.clear()
    PAR[:] = [None]


@handles(multiprocessing.Array)
def _array(I, typecode, size_or_initializer, lock=True):
    if typecode != 'd' or not Y.is_scalar(size_or_initializer):
        raise Unsupported('kind of shared memory')
    if PAR[-1] is not None:
        raise Unsupported('shared memory made by a work item')
    b = Shared(size_or_initializer)
    SHARED.append(b)
    return b


@handles(np.frombuffer)
def _frombuffer(I, b, dtype=float, count=-1, offset=0):
    if not isinstance(b, Shared) or dtype not in (float, np.float64, 'd') or count != -1 or offset != 0:
        raise Unsupported('frombuffer')
    return Buffer(b)


@handles(multiprocessing.Lock, multiprocessing.RLock)
def _lock(I, *a):
    if PAR[-1] is not None:
        raise Unsupported('a lock of one work item only')
    return Lock()


@handles(multiprocessing.cpu_count)
def _cpus(I):
    v = P_(T.var('cpus', 'I', True))
    C.CTX.assume(T.ind_ge(v - 1))
    return S(v)


class Pool:
    def __init__(self, I, initializer=None, initargs=()):
        self.I, self.init, self.initargs = I, initializer, tuple(initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def run(self, f, items, star):
        I = self.I
        s = I.siter(items) or I.long_iter(items, 12)
        if s is None:
            items = list(I.iterate(items))
            if len(items) > 12:
                raise Unsupported('many separate work items')
            return self.few(f, items, star)
        return self.many(f, s, star)

    def few(self, f, items, star):
        if SHARED and items:
            raise Unsupported('a few work items on shared memory')
        overlay = dict(IP.OVERLAY)
        try:
            if self.init is not None:
                self.I.call(self.init, self.initargs)
            return [self.I.call(f, tuple(self.I.iterate(x)) if star else (x,)) for x in items]
        finally:
            IP.OVERLAY.clear()
            IP.OVERLAY.update(overlay)

    def many(self, f, s, star):
        I = self.I
        overlay = dict(IP.OVERLAY)
        env = IP.Env(None, {})
        res = []
        env.vars['results'] = res
        reg = Region()
        IP.StateApp.n += 1
        try:
            if self.init is not None:
                I.call(self.init, self.initargs)
            worker = dict(IP.OVERLAY)

            def body(k):
                IP.OVERLAY.clear()
                IP.OVERLAY.update(worker)
                reg.held = []
                a = s.f(k)
                r = I.call(f, tuple(a) if star else (a,))
                if reg.held:
                    raise C.Violation('a work item ends holding a lock')
                I.native_method(res.append, res, (r,), {})
            PAR.append(reg)
            IP.run_loop(I, s, body, env, [], parallel=reg)
        finally:
            if PAR[-1] is reg:
                PAR.pop()
            IP.OVERLAY.clear()
            IP.OVERLAY.update(overlay)
        return env.vars['results']

    def starmap(self, f, items, chunksize=None):
        return self.run(f, items, True)

    def map(self, f, items, chunksize=None):
        return self.run(f, items, False)


@handles(multiprocessing.Pool, multiprocessing.pool.Pool)
def _pool(I, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **k):
    if k or PAR[-1] is not None:
        raise Unsupported('pool')
    if processes is not None and not C.CTX.decide_poly(T.ind_ge(lift(processes) - 1)):
        raise ValueError('Number of processes must be at least 1')
    return Pool(I, initializer, initargs)
