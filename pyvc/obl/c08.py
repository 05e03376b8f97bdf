"""C08: modal weight designs."""
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
import scipy.special
from spaudiopy import sph, parsa, utils

PI4 = lambda: 4 * S(P_(T.PI))
leg = scipy.special.eval_legendre


def look(v, N, c):
    """response in the look direction of the axis-symmetric pattern with modal weights c"""
    return v.sum(0, N + 1, lambda n: (2 * n + 1) / PI4() * v.at(c, n))


@obligation('C08', 'dirac')
def _(v):
    """bandlimited_dirac is the Legendre sum of its weights, for every order, weights and angles; unit weights by default"""
    N, D = v.int('N', 0), v.int('D', 2)
    w, d = v.array('w', (N + 1,)), v.array('d', (D,))
    i = v.index('i', 0, D)
    out = v.call(sph.bandlimited_dirac, N, d, w)
    v.same_shape(out, (D,), 'shape')
    P = lambda n: (2 * n + 1) / PI4() * v.call(leg, n, v.call(np.cos, v.at(d, i)))
    v.eq(v.at(out, i), v.sum(0, N + 1, lambda n: v.at(w, n) * P(n)), 'weights')
    v.eq(v.at(v.call(sph.bandlimited_dirac, N, d), i), v.sum(0, N + 1, P), 'default')
    v.frame()


@obligation('C08', 'dirac_wrong_weights_rejected')
def _(v):
    N, K = v.int('N', 0), v.int('K', 1)
    v.assume(K > N + 1)
    v.raises(AssertionError, sph.bandlimited_dirac, N, 0, v.array('w', (K,)))


@obligation('C08', 'unity_gain')
def _(v):
    """unity_gain: response 1 in the look direction, ratios kept"""
    N = v.int('N', 0)
    w = v.array('w', (N + 1,))
    a = look(v, N, w)
    v.nonzero(a)
    u = v.call(sph.unity_gain, w)
    v.same_shape(u, (N + 1,), 'shape')
    v.eq(look(v, N, u), 1, 'look direction')
    i, j = v.index('i', 0, N + 1), v.index('j', 0, N + 1)
    v.eq(v.at(u, i) * v.at(w, j), v.at(u, j) * v.at(w, i), 'ratios')
    v.frame()


@obligation('C08', 'hypercardioid')
def _(v):
    """constant over degrees, response 1 in the look direction"""
    N = v.int('N', 0)
    c = v.call(sph.hypercardioid_modal_weights, N)
    v.same_shape(c, (N + 1,), 'shape')
    i = v.index('i', 0, N + 1)
    v.eq(v.at(c, i), v.at(c, 0), 'constant')
    v.eq(look(v, N, c), 1, 'look direction')


@obligation('C08', 'cardioid_look')
def _(v):
    """response 1 in the look direction, every order: (2n+1)/(4 pi) c_n = U(n) - U(n+1) with U(n) = N!^2/((N+n)! (N-n)!),
    so that the sum over n < N telescopes to U(0) - U(N), and the last term is U(N)"""
    N = v.int('N', 0)
    c = v.call(sph.cardioid_modal_weights, N)
    v.same_shape(c, (N + 1,), 'shape')
    f = lambda x: v.call(scipy.special.factorial, x)
    U = lambda n: f(N) * f(N) / (f(N + n) * f(N - n))
    n = v.index('n', 0, N)
    v.eq((2 * n + 1) / PI4() * v.at(c, n), U(n) - U(n + 1), 'step')
    v.eq(U(S(P_(0))), 1, 'first')
    v.eq((2 * N + 1) / PI4() * v.at(c, N), U(N), 'last')


@obligation('C08', 'cardioid_pattern', bound='N <= 8')
def _(v):
    """the pattern is ((1 + cos)/2)^N"""
    d = v.real('d')
    x = v.call(np.cos, d)
    for N in range(9):
        c = v.call(sph.cardioid_modal_weights, N)
        p = v.call(sph.bandlimited_dirac, N, d, c)
        v.eq(v.at(p, 0), ((1 + x) / 2) ** N, f'order {N}')


@obligation('C08', 'maxre_butterworth')
def _(v):
    """max-rE and Butterworth weights with unit amplitude: response 1 in the look direction, ratios of the plain design"""
    N = v.int('N', 0)
    k, nc = v.real('k', pos=True), v.real('n_c', pos=True)
    i, j = v.index('i', 0, N + 1), v.index('j', 0, N + 1)
    for f, a in ((sph.maxre_modal_weights, ()), (sph.butterworth_modal_weights, (k, nc))):
        u, c = v.call(f, N, *a, UNITAMP=True), v.call(f, N, *a, UNITAMP=False)
        v.same_shape(u, (N + 1,), 'shape')
        v.nonzero(look(v, N, c))
        v.eq(look(v, N, u), 1, 'look direction ' + f.__name__)
        v.eq(v.at(u, i) * v.at(c, j), v.at(u, j) * v.at(c, i), 'ratios ' + f.__name__)
        v.eq(u, v.call(f, N, *a), 'default is unit amplitude ' + f.__name__)
    c = v.call(sph.butterworth_modal_weights, N, k, nc, UNITAMP=False)
    v.eq(v.at(c, i) * v.at(c, i) * (1 + (i / nc) ** (2 * k)), 1, 'Butterworth law')


@obligation('C08', 'beamformer')
def _(v):
    """axis-symmetric beamformer: weight of channel (n, m) is c_n Y_nm(steering), for every order, pattern and steering directions;
    sh_beamform is the plain inner product, summed linearly over signals"""
    N, Q, L = v.int('N', 0), v.int('Q', 1), v.int('L', 1)
    K = (N + 1) ** 2
    c, azi, zen = v.array('c', (N + 1,)), v.array('azi', (Q,)), v.array('zen', (Q,))
    Y = v.array('Y', (Q, K))

    def contract(I, n, a, z, sh_type='complex'):
        if a is not azi or z is not zen or sh_type != 'real':
            v.structure('sh_matrix arguments')
        v.eq(n, N, 'order')
        return Y
    v.contract(sph.sh_matrix, contract)
    n = v.index('n', 0, N + 1)
    m = v.index('m', -n, n + 1)
    q, l = v.index('q', 0, Q), v.index('l', 0, L)
    col = n * n + n + m
    W = v.call(parsa.sh_beamformer_from_pattern, c, N, azi, zen)
    v.same_shape(W, (Q, K), 'shape')
    v.eq(v.at(W, q, col), v.at(c, n) * v.at(Y, q, col), 'given pattern')
    for name, f in (('hypercardioid', sph.hypercardioid_modal_weights), ('cardioid', sph.cardioid_modal_weights),
                    ('max_rE', sph.maxre_modal_weights), ('max_DI', sph.hypercardioid_modal_weights),
                    ('inphase', sph.cardioid_modal_weights), ('maxre', sph.maxre_modal_weights)):
        W2 = v.call(parsa.sh_beamformer_from_pattern, name, N, azi, zen)
        v.eq(v.at(W2, q, col), v.at(v.call(f, N), n) * v.at(Y, q, col), name)
    s, Wa = v.array('s', (K, L)), v.array('Wa', (Q, K))
    out = v.call(parsa.sh_beamform, Wa, s)
    v.same_shape(out, (Q, L), 'shape')
    v.eq(v.at(out, q, l), v.sum(0, K, lambda k: v.at(Wa, q, k) * v.at(s, k, l)), 'beamform')
    v.raises(ValueError, parsa.sh_beamformer_from_pattern, 'nonsense', N, azi, zen)
    v.frame()


@obligation('C08', 'beam_response', bound='N <= 3', assumptions=['explicit formula of scipy.special.sph_harm for n <= 3'])
def _(v):
    """response of the steered beamformer to a source = pattern value at the angle between them"""
    azi, zen = v.concrete_array('azi', (2,)), v.concrete_array('zen', (2,))
    a, z = [v.at(azi, i) for i in range(2)], [v.at(zen, i) for i in range(2)]
    sin, cos = (lambda x: v.call(np.sin, x)), (lambda x: v.call(np.cos, x))
    g = sin(z[0]) * sin(z[1]) * cos(a[0] - a[1]) + cos(z[0]) * cos(z[1])
    for N in range(4):
        c = v.concrete_array('c', (N + 1,))
        W = v.call(parsa.sh_beamformer_from_pattern, c, N, a[0], z[0])
        src = v.call(sph.src_to_sh, np.array([1.]), a[1], z[1], N)
        out = v.call(parsa.sh_beamform, W, src)
        want = sum((2 * n + 1) / PI4() * v.at(c, n) * v.call(leg, n, g) for n in range(N + 1))
        v.eq(v.explicit(v.at(out, 0, 0)), want, f'order {N}')
