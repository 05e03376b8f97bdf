"""C15: parallel execution.  Work items run in any order and interleaving (contract of multiprocessing in pyvc/par.py)."""
import numpy as np
from ..vc import obligation, REG
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from . import c11, c13, c20
from spaudiopy import sig, decoder, parsa, utils, io, process

POOL = ('contract of multiprocessing: items run once each in forked processes that share only multiprocessing.Array memory; starmap '
        'returns the results in order; a module lock is one lock for all processes')


@obligation('C15', 'resampling', assumptions=[POOL, 'resampy.resample acts on every vector along the axis on its own and returns '
                                              'floor(n f2 / f1) samples'])
def _(v):
    """resampled responses and rate are those of one job, for every number of jobs given or chosen automatically"""
    G, n = v.int('G', 1), v.int('n', 1)
    L, R = v.array('L', (G, n)), v.array('R', (G, n))
    f1, f2 = v.int('f1', 1), v.int('f2', 1)
    ref = v.call(process.resample_hrirs, L, R, f1, f2)
    for jobs in (None, v.int('J', 2), 1):
        out = v.call(process.resample_hrirs, L, R, f1, f2, jobs_count=jobs)
        for a, b in zip(out, ref):
            v.eq(a, b, 'serial result')
    v.frame()


@obligation('C15', 'sample_rendering', assumptions=[POOL, c20.NEAR])
def _(v):
    """the work items add under the lock, whose sum is the serial result"""
    H, n = c20.hrirs(v)
    N = v.int('N', 1)
    p, a, z = v.array('p', (N,)), v.array('a', (N,)), v.array('z', (N,))
    ref = v.call(parsa.render_bsdm, p, a, z, H)
    for jobs in (None, v.int('J', 2), 1):
        out = v.call(parsa.render_bsdm, p, a, z, H, jobs_count=jobs)
        for x, y in zip(out, ref):
            v.eq(x, y, 'serial result')
    v.frame()


@obligation('C15', 'room_responses', assumptions=[POOL])
def _(v):
    """binaural room responses of a layout: the file written is that of one job (C20)"""
    for jobs in (None, v.int('J', 2), 1):
        c20.loudspeaker_case(v, 'brirs', dict(jobs_count=jobs))


def ambi(v, n):
    fs = v.int('fs', 1)
    chs = [v.array(f's{c}', (n,)) for c in range(4)]
    return v.call(sig.AmbiBSignal, chs, fs=fs)


def pseudo_intensity(v, smooth):
    """the work items write different rows; the intensity vectors are those of one job, and the directions returned are theirs"""
    n = v.int('n', 2)
    m = ambi(v, n)
    w = 2 * v.int('w', 1) + 1
    seen = []

    def cart2sph(I, x, y, z, positive_azi=False, steady_zen=False):
        seen.append((x, y, z))
        return len(seen), positive_azi, steady_zen
    v.contract(utils.cart2sph, cart2sph)
    ref = v.call(parsa.pseudo_intensity, m, win_len=w, smoothing_order=smooth)
    for jobs in (None, v.int('J', 2), 1):
        out = v.call(parsa.pseudo_intensity, m, win_len=w, smoothing_order=smooth, jobs_count=jobs)
        if len(seen) != out[0] or ref[0] != 1:
            v.structure('directions of the intensity vectors')
        v.true(out[1:] == ref[1:], 'options')
        for x, y in zip(seen[-1], seen[0]):
            v.eq(x, y, 'serial result')
    v.frame()


for _s in (0, 1, 5):
    obligation('C15', f'pseudo_intensity_{_s}', assumptions=[POOL])((lambda s: lambda v: pseudo_intensity(v, s))(_s))
    REG['C15'][f'pseudo_intensity_{_s}']['doc'] = pseudo_intensity.__doc__


def same_panning(v, norm, retain):
    """the work items write different rows; gains are those of one job"""
    c11.small(v)
    h, L, M = c11.layout(v)
    if retain:
        e, L2, M2 = c11.layout(v, 'e')
        e.imaginary_ls_idx = v.call(np.arange, L, L2)
        v.assume(L2 >= L + 1)
        h.ambisonics_hull = e
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    kw = dict(norm=norm) if norm != 2 else {}
    if retain:
        kw['retain_outside'] = True
    ref = v.call(decoder.vbap, src, h, **kw)
    for jobs in (None, v.int('J', 2), 1):
        out = v.call(decoder.vbap, src, h, jobs_count=jobs, **kw)
        v.eq(out, ref, 'serial result')
    v.frame()


for _n, _r in ((2, False), (1, False), (2, True)):
    _name = f'vbap_norm{_n}{"_retain" if _r else ""}'
    obligation('C15', _name, timeout=300, assumptions=[POOL, c11.HULL])((lambda n, r: lambda v: same_panning(v, n, r))(_n, _r))
    REG['C15'][_name]['doc'] = same_panning.__doc__


@obligation('C15', 'vbip', assumptions=[c11.HULL])
def _(v):
    """energy-based panning depends on the number of jobs only through amplitude panning, which does not (vbap_...)"""
    h, L, M = c11.layout(v)
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))

    def vbap(I, s, hull, norm=2, valid_simplices=None, retain_outside=False, jobs_count=1):
        v.eq(s, src, 'sources')
        if hull is not h or norm != 2 or valid_simplices is not None or retain_outside is not False:
            v.structure('other panning gains')
        return Arr((Q, L), lambda i: T.app('G', *i, sort='R'), 'R')
    v.contract(decoder.vbap, vbap)
    ref = v.call(decoder.vbip, src, h)
    for jobs in (None, v.int('J', 2), 1):
        v.eq(v.call(decoder.vbip, src, h, jobs_count=jobs), ref, 'serial result')
    v.frame()


def all_round(v, p):
    """all-round panning and decoding depend on the number of jobs only through amplitude panning, which does not (vbap_...)"""
    src = v.array('src', (p.Q, 3))
    F = v.array('F', (p.K, v.int('T', 1)))
    for fn, x in ((decoder.allrap, src), (decoder.allrap2, src), (decoder.allrad, F), (decoder.allrad2, F)):
        ref = v.call(fn, x, p.h, **p.arg)
        for jobs in (None, p.jobs):
            v.eq(v.call(fn, x, p.h, jobs_count=jobs, **p.arg), ref, 'serial result')
    v.frame()


for _im, _de in c13.CASES:
    _name = 'all_round' + ('_imaginary' if _im else '') + ('_default' if _de else '')
    obligation('C15', _name, assumptions=[c13.LOC, c13.DIR])((lambda im, de: lambda v: all_round(v, c13.Prepared(v, im, de)))(_im, _de))
    REG['C15'][_name]['doc'] = all_round.__doc__
