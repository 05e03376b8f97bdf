"""Laws of external linear algebra, used as rewriting rules for sums of products.

law(lhs, n, value): for all p_1..p_n: lhs(p_1..p_n) = value(p_1..p_n), where lhs is one sum of a product of array entries.
The rule replaces instances of the sum inside larger sums.  A law whose left side is not of that form is not registered
(the proof then simply does not have it available)."""
from . import terms as T
from . import core as C
from . import sym as Y
from .terms import P, P_, ZERO, ONE, Fr
from .sym import S, lift


def law(lhs, n, value, extra=()):
    ps = [T.fresh('p', 'I') for _ in range(n)]
    saved = list(T.SUM_RULES)
    del T.SUM_RULES[:]             # the pattern itself is written out with no other rule active
    try:
        t = lift(lhs(*[S(P_(p)) for p in ps]))
    finally:
        T.SUM_RULES.extend(saved)
    s = t.single()
    if s is None:
        return False
    coef, mono = s
    bs, body = [], {}
    for a, e in mono:
        A = T.atom(a)
        if A.kind == 'sum' and e == 1:
            b, m = T.open_sum(A)
            bs += b
            for x, k in m:
                body[x] = body.get(x, 0) + k
        else:
            body[a] = body.get(a, 0) + e
    if not bs:
        return False
    pids = {p.id for p in ps} | {x for x in extra if x in t.fv}
    bids = {b.id for b, _, _ in bs}
    pat = sorted(body.items(), key=lambda t: (T.atom(t[0]).kind != 'app', -len(T.atom(t[0]).fv)))
    free = P({(): coef})
    pat2, outer = [], ONE
    for a, e in pat:
        if T.atom(a).fv & bids:
            pat2.append((a, e))
        elif T.atom(a).fv & pids:
            outer = outer * P({((a, 1),): Fr(1)}).pow(e)
        else:
            free = free * P({((a, 1),): Fr(1)}).pow(e)
    pat = pat2
    if not all(isinstance(e, int) for _, e in pat) or not pat:
        return False
    need = _expand(pat)

    def rule(tbs, gm):
        if len(tbs) < len(bs) or len(gm) < len(set(a for a, _ in need)):
            return None
        tb = {b.id: (lo, hi) for b, lo, hi in tbs}
        for mp, used in _match(need, dict(gm), {}, tb, pids, bids):
            if len({mp[b] for b in bids if b in mp}) < len(bids):
                continue
            tgt = {next(iter(mp[b].d))[0][0] for b in bids}
            ok = True
            full = {k: v for k, v in mp.items()}
            for b, lo, hi in bs:
                i = next(iter(mp[b.id].d))[0][0]
                if T.subs(lo, full) != tb[i][0] or T.subs(hi, full) != tb[i][1]:
                    ok = False
                    break
            if not ok:
                continue
            if any(mp[p].fv & tgt for p in pids if p in mp):
                continue
            rest = dict(gm)
            for a in used:
                rest[a] -= 1 if rest[a] > 0 else -1
                if rest[a] == 0:
                    del rest[a]
            if any(T.atom(a).fv & tgt for a in rest):
                continue
            if any((lo.fv | hi.fv) & tgt for b, lo, hi in tbs if b.id not in tgt):
                continue
            if not all(p in mp for p in pids):
                continue
            val = T.subs(lift(value(*[S(mp[p.id]) for p in ps])), {x: mp[x] for x in extra if x in mp})
            if outer != ONE:
                o = T.subs(outer, full)
                Y.DIVISORS.append((o, list(C.CTX.facts)))
                val = val * o.pow(-1)
            nb = [x for x in tbs if x[0].id not in tgt]
            body2 = val * T.mono_poly(rest) * free.pow(-1)
            return T.msum(nb, body2) if nb else body2
        return None
    T.SUM_RULES.append(rule)
    return True


def _expand(pat):
    out = []
    for a, e in pat:
        out += [(a, 1 if e > 0 else -1)] * abs(e)
    return out


def _match(need, avail, mp, tb, pids, bids, used=()):
    if not need:
        yield mp, used
        return
    (a, sg), rest = need[0], need[1:]
    for t, e in avail.items():
        if not isinstance(e, int) or e == 0 or (e > 0) != (sg > 0):
            continue
        for m2 in _unify_atom(T.atom(a), T.atom(t), mp, tb, pids, bids):
            av = dict(avail)
            av[t] -= sg
            yield from _match(rest, av, m2, tb, pids, bids, used + (t,))


def _unify_atom(A, B, mp, tb, pids, bids):
    if A.kind != B.kind:
        return
    if A.kind == 'conj':
        yield from _unify_atom(T.atom(A.data), T.atom(B.data), mp, tb, pids, bids)
        return
    if A.kind == 'var':
        yield from _unify(P_(A), P_(B), mp, tb, pids, bids)
        return
    if A.kind == 'app':
        if A.data[0] != B.data[0] or len(A.data[1]) != len(B.data[1]):
            return
        args = [list(B.data[1])]
        if A.data[0] in SYMMETRIC:
            args.append(list(B.data[1][:-2]) + [B.data[1][-1], B.data[1][-2]])
        for bb in args:
            yield from _unify_list(list(A.data[1]), bb, mp, tb, pids, bids)
        return
    if not (A.fv & (pids | bids)) and A is B:
        yield mp


def _unify_list(ps, qs, mp, tb, pids, bids):
    if not ps:
        yield mp
        return
    if not isinstance(ps[0], P) or not isinstance(qs[0], P):
        if ps[0] == qs[0]:
            yield from _unify_list(ps[1:], qs[1:], mp, tb, pids, bids)
        return
    for m in _unify(ps[0], qs[0], mp, tb, pids, bids):
        yield from _unify_list(ps[1:], qs[1:], m, tb, pids, bids)


def _unify(p, q, mp, tb, pids, bids):
    A = p.as_atom()
    if A is not None and A.id in pids:
        if A.id in mp:
            if mp[A.id] == q:
                yield mp
            return
        yield {**mp, A.id: q}
        return
    if A is not None and A.id in bids:
        if A.id in mp:
            if mp[A.id] == q:
                yield mp
            return
        B = q.as_atom()
        if B is None or B.id not in tb or any(mp.get(b) == q for b in bids):
            return
        yield {**mp, A.id: q}
        return
    p = T.subs(p, {k: v for k, v in mp.items()})
    if p == q:
        yield mp
        return
    A, B = p.as_atom(), q.as_atom()
    if A is not None and B is not None and A.kind == B.kind == 'app':
        yield from _unify_atom(A, B, mp, tb, pids, bids)


# ---------------------------------------------------------------- symmetric arrays
SYMMETRIC = set()


def _key(p):
    return tuple(sorted(p.d.items()))


def reset():
    for n in SYMMETRIC:
        T.APP_RULES.pop(n, None)
    SYMMETRIC.clear()


def symmetric(name):
    """entries of the array called name are symmetric in their two indices"""
    SYMMETRIC.add(name)

    def rule(*args):
        i, j = args[-2:]
        if _key(j) < _key(i):
            return T.app(name, *args[:-2], j, i, sort='R')
        return None
    T.APP_RULES[name] = rule


# ---------------------------------------------------------------- laws of numpy.linalg
def delta(i, j):
    return S(T.ind_eq(lift(i) - lift(j)))


def sm(lo, hi, f):
    from . import sym as Y
    return S(Y.tsum(lift(lo), lift(hi), lambda k: lift(f(S(k)))))


def cj(x):
    return S(lift(x).conj())


def get(a):
    return lambda *i: S(a.at(tuple(lift(x) for x in i)))


def is_symmetric(a):
    from . import core as C
    i, j = P_(T.fresh('y', 'I')), P_(T.fresh('y', 'I'))
    try:
        return C.CTX.simp(a.at((i, j)) - a.at((j, i))).is_zero()
    except Exception:
        return False


def inv_law(I, r):
    a, x = r.args[0], r.result
    if a.ndim != 2:
        return
    n = a.shape_[0]
    A, X = get(a), get(x)
    if is_symmetric(a):
        s = x.at((ZERO, ONE)).as_atom()
        if s is not None and s.kind == 'app':
            symmetric(s.data[0])
    law(lambda i, j: sm(0, n, lambda k: X(i, k) * A(k, j)), 2, delta, r.deps)
    law(lambda i, j: sm(0, n, lambda k: A(i, k) * X(k, j)), 2, delta, r.deps)


def solve_law(I, r):
    a, b, x = r.args[0], r.args[1], r.result
    if a.ndim != 2 or b.ndim > 2:
        return
    n = a.shape_[0]
    A, B, X = get(a), get(b), get(x)
    if b.ndim == 1:
        law(lambda i: sm(0, n, lambda k: A(i, k) * X(k)), 1, B, r.deps)
    else:
        law(lambda i, j: sm(0, n, lambda k: A(i, k) * X(k, j)), 2, B, r.deps)


def eigh_law(I, r):
    a, (w, v) = r.args[0], r.result
    if a.ndim != 2:
        return
    n = a.shape_[0]
    A, W, V = get(a), get(w), get(v)
    law(lambda j, k: sm(0, n, lambda i: V(j, i) * W(i) * cj(V(k, i))), 2, A, r.deps)
    law(lambda j, k: sm(0, n, lambda i: V(j, i) * cj(V(k, i))), 2, delta, r.deps)
    law(lambda j, k: sm(0, n, lambda i: cj(V(i, j)) * V(i, k)), 2, delta, r.deps)


def svd_law(I, r):
    if not isinstance(r.result, tuple):
        return
    a, (u, s, vh) = r.args[0], r.result
    U, V = get(u), get(vh)
    m, n = a.shape_
    law(lambda j, k: sm(0, u.shape_[0], lambda i: cj(U(i, j)) * U(i, k)), 2, delta, r.deps)
    law(lambda j, k: sm(0, vh.shape_[1], lambda i: V(j, i) * cj(V(k, i))), 2, delta, r.deps)
    if u.shape_[1] == u.shape_[0]:
        law(lambda j, k: sm(0, u.shape_[1], lambda i: U(j, i) * cj(U(k, i))), 2, delta, r.deps)
    if vh.shape_[1] == vh.shape_[0]:
        law(lambda j, k: sm(0, vh.shape_[0], lambda i: cj(V(i, j)) * V(i, k)), 2, delta, r.deps)


def pinv_law(I, r):
    """left inverse if the caller's specification states full column rank of the argument, right inverse for full row rank"""
    a, x = r.args[0], r.result
    A, X = get(a), get(x)
    m, n = a.shape_[-2:]
    if a.ndim != 2:
        return
    for kind in [k for f, k in I.rank_rules if f(a)]:
        if kind == 'col':
            law(lambda i, j: sm(0, m, lambda k: X(i, k) * A(k, j)), 2, delta, r.deps)
        else:
            law(lambda i, j: sm(0, n, lambda k: A(i, k) * X(k, j)), 2, delta, r.deps)


LAWS = dict(inv=inv_law, solve=solve_law, eigh=eigh_law, svd=svd_law, pinv=pinv_law)
