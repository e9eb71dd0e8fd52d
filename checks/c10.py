"""C10: each P-V equation of state honours its own parameters."""
import numpy as np

from vlib import eosref as er
from vlib.core import Group

PROPERTY = 'C10'
RULE = ('every formulation and order, volumetric and axial, with random '
        'physical parameters over three decades of modulus and volume; '
        'P(V0), the modulus and its first and second pressure derivatives '
        'from Chebyshev differentiation of the returned pressures; implied '
        'parameters; whole curves against independent forms; scalar, array, '
        'list and matrix volumes; strain and normalised pressure; non-trivial = distinct (formulation, '
        'order, axial, parameters)')
MIN = {'distinct': 400, 'values_compared': 20000, 'implied': 300, 'normalised': 300}
ASSUMPTIONS = ["implied values at second order: K' = 4 (Birch-Murnaghan, "
               'Tait), 2 (natural strain), 1 (Vinet), three times those for '
               'an axis',
               "K0 in 3-800 (9-2400 for an axis), K' in 2.2-7.5 (three "
               'times for an axis)']


STRAIN = {
    'BirchMurnaghan': (lambda r: (r**(2. / 3) - 1) / 2,
                       lambda f, r: 3 * f * (1 + 2 * f)**2.5),
    'NaturalStrain': (lambda r: np.log(r) / 3, lambda f, r: 3 * f * r),
    'Vinet': (lambda r: 1 - r**(-1. / 3), lambda f, r: 3 * f / (1 - f)**2)}


def case(ctx, rng, i):
    from quantas.eosfit.utils import pv_eos
    combos = [(n, o, l) for n in er.NAMES for o in er.ORDERS[n]
              for l in (False, True)]
    name, order, linear = combos[i % len(combos)]
    K, Kp, Kpp, V0 = er.parameters(rng, name, order, linear)
    ctx.describe(eos=name, order=order, axial=linear, K0=K, Kp=Kp, Kpp=Kpp,
                 V0=V0)
    eos = getattr(pv_eos, name)()
    key = '%s:%d' % (name, order)

    def P(V, dofit=True, Kp=Kp, Kpp=Kpp):
        p = np.array([K, Kp, Kpp, V0])
        return eos.eos(p, V, order=order, linear=linear, dofit=dofit)

    # Definition: value, modulus and derivatives at V0
    half = 0.06 if linear else 0.12
    p, p1, p2, p3 = er.derivatives(P, V0, 3, half)
    ctx.close(p, 0, key + ':P0', 0, 1e-12 * K, 'P(V0)')
    ctx.close(-V0 * p1, K, key + ':K0', 1e-9, msg='-V dP/dV at V0')
    # K(V) = -V P';  dK/dP = K_V / P_V
    k1 = -p1 - V0 * p2
    k2 = -2 * p2 - V0 * p3
    ctx.close(k1 / p1, Kp, key + ':Kp', 1e-8, 1e-8, 'dK/dP at V0')
    kpp = (k2 * p1 - k1 * p2) / p1**3
    ctx.close(kpp * K, Kpp * K, key + ':Kpp', 1e-5, 1e-5 * Kp**2 + 1e-6,
              "K0 d2K/dP2 at V0")
    # Whole curve against an independent form, and the accepted shapes
    lo, hi = (0.93, 1.02) if linear else (0.78, 1.06)
    V = np.sort(V0 * rng.uniform(lo, hi, 40))[::-1]
    keep = V.copy()
    want = er.pressure(name, K, Kp, Kpp, V0, V)
    got = P(V)
    ctx.same(V, keep, key + ':input', 'volumes changed')
    ctx.close(got, want, key + ':curve', 1e-9, 1e-11 * K, 'P(V)')
    ctx.close(P(V, dofit=False), want, key + ':curve', 1e-9, 1e-11 * K,
              'P(V) of given parameters')
    ctx.expect((np.diff(want) > 0).all() == (np.diff(got) > 0).all(),
               key + ':monotonic', 'P(V) is not monotonic')
    ctx.close(P(float(V[0])), want[0], key + ':scalar', 1e-9, 1e-11 * K)
    ctx.close(P(V.reshape(5, 8)), want.reshape(5, 8), key + ':matrix', 1e-9,
              1e-11 * K)
    # Parameters not fitted at this order take the implied values
    wild = np.array([K, Kp, Kpp, V0])
    if order == 2:
        wild[1] = float(rng.uniform(1, 30))
    if order < 4:
        wild[2] = float(rng.uniform(-1, 1))
        before = wild.copy()
        got = eos.eos(wild, V, order=order, linear=linear, dofit=True)
        ctx.close(got, want, key + ':implied', 1e-9, 1e-11 * K,
                  'P(V) with arbitrary values of the implied parameters')
        if order == 2 and wild[1] != before[1]:
            ctx.close(wild[1], Kp, key + ':implied:Kp', 1e-12)
        if wild[2] != before[2]:
            ctx.close(wild[2] * K, Kpp * K, key + ':implied:Kpp', 1e-9,
                      1e-9)
        ctx.close(wild[[0, 3]], [K, V0], key + ':implied:kept', 0)
        ctx.count('implied')
    # Similarity: volumes and moduli scale
    s, t = float(rng.uniform(0.1, 10)), float(rng.uniform(0.1, 10))
    got = eos.eos(np.array([K * s, Kp, Kpp / s, V0 * t]), V * t, order=order,
                  linear=linear, dofit=True)
    ctx.close(got, want * s, key + ':scaling', 1e-9, 1e-11 * K * s)
    if not linear and name in STRAIN:
        # normalised pressure against strain: times its factor, the pressure
        strain, factor = STRAIN[name]
        W = np.concatenate([[V0], V[(V < 0.995 * V0)]])
        Q = np.concatenate([[0.], er.pressure(name, K, Kp, Kpp, V0, W[1:])])
        Q = Q * rng.uniform(0.9, 1.1, len(Q))
        sV, sP = (1e-3 * V0 * rng.uniform(0.5, 2, len(W)),
                  1e-2 * K * rng.uniform(0.5, 2, len(W)))
        with np.errstate(all='ignore'):
            a = eos.normalize(np.array([K, Kp, Kpp, V0]), W.copy(), Q.copy(),
                              order=order)
            b = eos.normalize(np.array([K, Kp, Kpp, V0]), W.copy(), Q.copy(),
                              sV.copy(), sP.copy(), order=order)
        f = strain(V0 / W)
        for k in range(4):
            ctx.same(a[k], b[k], key + ':normalised', 'with errors')
        ctx.close(a[0], f, key + ':strain', 1e-12, 1e-14)
        ctx.close(a[1][1:] * factor(f[1:], V0 / W[1:]),
                  er.pressure(name, K, Kp, Kpp, V0, W[1:]),
                  key + ':normalised', 1e-9, 1e-11 * K)
        ctx.close(a[2], f[1:], key + ':strain', 1e-12)
        ctx.close(a[3] * factor(f[1:], V0 / W[1:]), Q[1:],
                  key + ':normalised:data', 1e-12, 1e-12 * K)
        ctx.expect(not np.any(a[4]) and not np.any(a[5]), key + ':errors')
        # strain errors: linear in those of the volumes, of the right size
        d = np.abs(strain(V0 / W[1:] * (1 + 1e-6)) - f[1:]) / 1e-6
        most = d * (sV[1:] / W[1:] + sV[0] / W[0])
        ctx.expect(np.all((b[4] <= 1.5 * most) & (b[4] >= 0.5 * most)),
                   key + ':errors', 'strain errors %s for %s' % (b[4], most))
        ctx.expect(np.all(b[5] >= np.abs(b[3] * sP[1:] / Q[1:]) * 0.999),
                   key + ':errors', 'below the pressure errors')
        ctx.count('normalised')
    ctx.nontrivial(name, order, linear, round(K, 3), round(Kp, 3))


def groups(tier):
    k = 1 if tier == 'quick' else 40
    return [Group('eos', 1600 * k, case)]
