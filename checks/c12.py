"""C12: energy-volume equations of state agree with their pressure."""

import numpy as np

from vlib import eosref as er
from vlib.core import Group

PROPERTY = 'C12'
RULE = ('every energy-volume formulation with random physical parameters in '
        'eV, hartree, rydberg and kJ/mol per A^3 or bohr^3; minimum, '
        'curvature and pressure from Chebyshev differentiation of the '
        'returned energies, against the pressures of the same name and '
        'independent forms; fits of exact data on random, shuffled and '
        'lopsided volume sets with energy offsets, repeated and compared '
        'across units; non-trivial = distinct (formulation, units, '
        'parameters)')
MIN = {'distinct': 300, 'fits': 300, 'permutations': 300,
       'values_compared': 20000}
ASSUMPTIONS = ["K0 in 5-600 GPa, K' in 2.5-7, data within -14 to +8 % of V0 "
               'and bracketing it, at least 6 volumes',
               'energy offsets for which the curvature survives double '
               'precision']

#: (label, eV per energy unit, A per length unit)
UNITS = (('eV/A', 1.0, 1.0), ('Ha/bohr', 27.211386245988, 0.529177210903),
         ('Ry/bohr', 13.605693122994, 0.529177210903),
         ('Ha/A', 27.211386245988, 1.0), ('kJ/mol/A', 0.010364269574711, 1.0))
GPA = 160.21766339999998      # GPa per eV/A^3
TAGS = tuple(er.EV)


def parameters(rng, unit):
    _, ev, ang = unit
    K = float(np.exp(rng.uniform(np.log(5), np.log(600)))) / GPA / ev * ang**3
    V0 = float(np.exp(rng.uniform(np.log(10), np.log(1500)))) / ang**3
    Kp = float(rng.uniform(2.5, 7))
    E0 = -float(10**rng.uniform(0, 4)) / ev
    return E0, K, Kp, V0


def curve(ctx, rng, i):
    from quantas.eosfit.utils import pv_eos
    from quantas.qha.utils.ev_eos import EnergyEOS
    tag = TAGS[i % 4]
    unit = UNITS[(i // 4) % len(UNITS)]
    E0, K, Kp, V0 = parameters(rng, unit)
    ctx.describe(eos=tag, units=unit[0], E0=E0, K0=K, Kp=Kp, V0=V0)
    ev = EnergyEOS()
    f = getattr(ev, tag)

    def E(V):
        return f(V, 0., K, Kp, V0)

    ctx.close(f(V0, E0, K, Kp, V0), E0, tag + ':E0', 4e-16,
              1e-12 * K * V0, 'E(V0)')
    e, e1, e2, e3 = er.derivatives(E, V0, 3, 0.12)
    s = K * V0
    ctx.close(e, 0, tag + ':E0', 0, 1e-12 * s)
    ctx.close(e1 / K, 0, tag + ':minimum', 0, 1e-10, 'dE/dV at V0 / K0')
    ctx.close(e2 * V0 / K, 1, tag + ':curvature', 1e-8,
              msg='V0 d2E/dV2 / K0')
    ctx.close(-1 - V0 * e3 / e2, Kp, tag + ':Kp', 1e-6, 1e-6,
              "pressure derivative of the modulus")
    lo, hi = ((0.82, 1.08), (0.6, 1.5))[int(rng.random() < 0.5)]
    V = np.sort(V0 * rng.uniform(lo, hi, 30))
    keep = V.copy()
    ctx.close(f(V, E0, K, Kp, V0), er.energy(tag, V, E0, K, Kp, V0),
              tag + ':energy', 4e-16 * 4, 1e-12 * s, 'E(V)')
    pars = np.array([E0, K, Kp, V0])
    got = ev.pressure(tag, pars, V)
    ctx.same(V, keep, tag + ':input', 'volumes changed')
    ctx.same(pars, np.array([E0, K, Kp, V0]), tag + ':input',
             'parameters changed')
    want = er.pressure(er.EV[tag], K, Kp, er.implied(
        er.EV[tag], 3, False, K, Kp, 0)[1], V0, V)
    ctx.close(got, want, tag + ':pressure', 1e-9, 1e-11 * K, 'pressure')
    for v, p in zip(V[::6], got[::6]):
        d = er.derivatives(E, v, 1, 0.05)
        ctx.close(-d[1], p, tag + ':derivative', 1e-8, 1e-9 * K,
                  '-dE/dV against the pressure')
    own = getattr(pv_eos, er.EV[tag])().eos(
        np.array([K, Kp, 0., V0]), V, order=3, dofit=True)
    ctx.close(got, own, tag + ':PV', 1e-12, 1e-13 * K, 'pressure-volume form')
    # the parameters of a fit, as a list, with a modulus in other units
    ctx.close(ev.pressure(tag, [E0, 7.3 * K, Kp, V0], V), 7.3 * want,
              tag + ':scaled', 1e-9, 1e-10 * K)
    ctx.nontrivial('curve', tag, unit[0], round(Kp, 4))


def fit(ctx, rng, i):
    from quantas.qha.utils.ev_eos import EnergyEOS
    tag = TAGS[i % 4]
    unit = UNITS[(i // 4) % len(UNITS)]
    E0, K, Kp, V0 = parameters(rng, unit)
    n = int(rng.integers(6, 16) if rng.random() < 0.9 else
            rng.integers(20, 120))
    lo, hi = -rng.uniform(0.05, 0.14), rng.uniform(0.02, 0.08)
    V = V0 * (1 + np.sort(np.concatenate((
        [lo, hi], rng.uniform(lo, hi, n - 2)))))
    s = K * V0 * ((hi - lo) / 2)**2
    while abs(E0) * 2.3e-16 > 1e-11 * s:
        E0 /= 10
    E = er.energy(tag, V, E0, K, Kp, V0)
    ctx.describe(eos=tag, units=unit[0], E0=E0, K0=K, Kp=Kp, V0=V0, V=V)
    eos = EnergyEOS()
    keepV, keepE = V.copy(), E.copy()
    p, err = eos.fit(tag, V, E)
    ctx.same(V, keepV, 'fit:input', 'volumes changed')
    ctx.same(E, keepE, 'fit:input', 'energies changed')
    noise = abs(E0) * 2.3e-16 / s

    def good(p, E0, K, V0, what):
        ctx.close(p[0], E0, tag + ':' + what + ':E0', 1e-15, (
            1e-9 + 100 * noise) * s, 'fitted E0')
        ctx.close(p[3], V0, tag + ':' + what + ':V0', 1e-7 + 1e3 * noise,
                  msg='fitted V0')
        ctx.close(p[1], K, tag + ':' + what + ':K0', 1e-5 + 3e4 * noise,
                  msg='fitted K0')
        ctx.close(p[2], Kp, tag + ':' + what + ':Kp', 1e-4 + 1e6 * noise,
                  msg="fitted K'")
        ctx.count('fits')

    good(p, E0, K, V0, 'fit')
    ctx.expect(np.isfinite(err).all() and (err >= 0).all(), 'fit:errors',
               'errors %s' % err)
    ctx.expect((err[[1, 3]] < 1e-3 * np.array([K, V0])).all(), 'fit:errors',
               'errors of an exact fit: %s' % err)
    q, e2 = eos.fit(tag, V.copy(), E.copy())
    ctx.same(np.asarray(q), np.asarray(p), 'fit:repeat', 'second fit')
    o = (np.arange(n)[::-1], rng.permutation(n))[i % 2]
    good(EnergyEOS().fit(tag, V[o], E[o])[0], E0, K, V0, 'order')
    ctx.count('permutations')
    # other units, other offset
    _, ev, ang = unit
    _, ev2, ang2 = UNITS[int(rng.integers(0, len(UNITS)))]
    x, y = ev / ev2, (ang / ang2)**3
    shift = float(rng.normal()) * s * 10
    Es = er.energy(tag, V, E0 + shift, K, Kp, V0) * x
    good(EnergyEOS().fit(tag, V * y, Es)[0] / np.array(
        [x, x / y, 1, y]), E0 + shift, K, V0, 'units')
    # residuals: a scatter ten times larger gives errors ten times larger
    w = np.sin(np.arange(n) * 2.3 + i) * s * 1e-4
    a = EnergyEOS().fit(tag, V, E + w)[1]
    b = EnergyEOS().fit(tag, V, E + 3 * w)[1]
    if n > 7:
        ctx.close(b / a, np.full(4, 3.), tag + ':scatter', 0.1,
                  msg='errors for three times the scatter')
    ctx.nontrivial('fit', tag, unit[0], n, round(Kp, 4))


def groups(tier):
    k = 1 if tier == 'quick' else 40
    return [Group('curve', 600 * k, curve), Group('fit', 480 * k, fit)]
