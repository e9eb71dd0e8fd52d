"""C29: Kieffer acoustic contributions form one thermodynamic model."""
import os

import numpy as np
from scipy.constants import Avogadro, Boltzmann, Planck

from vlib import cli, runs
from vlib.core import Group

PROPERTY = 'C29'
RULE = ('random sets of 1-5 acoustic cut-off frequencies (1e9-5e13 Hz) and '
        'temperatures from 0 and 0.01 K to 10000 K; free energy, entropy and '
        'heat capacity against an independent quadrature of the '
        'sine-dispersion density of states, against each other by '
        'differentiation, additivity, scaling and limits; quasi-harmonic '
        'command lines with the acoustic option; non-trivial = distinct '
        '(number of branches, decades of the reduced frequency) or (scheme, '
        'minimisation, option spelling)')
MIN = {'distinct': 60, 'points': 900, 'derivatives': 120, 'cold': 40,
       'hot': 40, 'refused_runs': 8}
ASSUMPTIONS = ['cut-off frequencies are positive']
R = Avogadro * Boltzmann
WORKERS = 8

_X, _W = np.polynomial.legendre.leggauss(300)
_S, _W = (_X + 1) / 2, _W / 2
_TH = np.pi / 2 * _S**5
_G = 3 * (2 / np.pi)**3 * _TH**2 * np.pi / 2 * 5 * _S**4 * _W


def model(nu, T):
    """(F, S, Cv) per mole, summed over the branches."""
    out = np.zeros(3)
    if T == 0:
        return out
    for f in np.atleast_1d(nu):
        x = Planck * f / Boltzmann / T * np.sin(_TH)
        x = np.maximum(x, 1e-300)
        e = np.exp(-x)
        one = -np.expm1(-x)
        ln = np.where(x > 30, -e, np.log(one))
        out[0] += R * T * np.sum(_G * ln)
        out[1] += R * np.sum(_G * (x * e / one - ln))
        out[2] += R * np.sum(_G * x**2 * e / one**2)
    return out


def frequencies(rng):
    n = int(rng.integers(1, 6))
    nu = 10**rng.uniform(11, 13.7, n)
    if rng.random() < 0.25:
        nu = 10**rng.uniform(9, 13.7, n)
    if rng.random() < 0.2:
        nu[:] = nu[0]
    if n > 1 and rng.random() < 0.25:
        # nearly the same
        k = rng.random(n) < 0.7
        nu[k] = nu[0] * (1 + 10**rng.uniform(-7, -2) *
                         rng.uniform(-1, 1, int(k.sum())))
    return nu


def observe(K, T):
    return np.array([K.helmholtz(T), K.entropy(T), K.heat_capacity(T)],
                    dtype=float)


def values(ctx, rng, index):
    from quantas.qha.utils.kieffer import Kieffer
    nu = frequencies(rng)
    given = nu.copy() if index % 3 else nu.tolist()
    K = Kieffer(given)
    ctx.close(K.acofreq, nu, 'stored', 0, msg='stored frequencies')
    temps = [float(t) for t in 10**rng.uniform(0, 3.7, 4)] + \
        [float(10**rng.uniform(-2, 0.5)), float(10**rng.uniform(3.3, 4))]
    names = ('helmholtz', 'entropy', 'heat capacity')
    dec = set()
    for T in temps:
        if index % 5 == 0:
            T = np.float64(T)
        got, want = observe(K, T), model(nu, T)
        for g, w, name in zip(got, want, names):
            ctx.expect(np.isfinite(g), 'finite:' + name,
                       '%s is %r at %r K for %s Hz' % (name, g, T,
                                                       nu.tolist()))
            ctx.close(g, w, 'value:' + name, 1e-6, 1e-30, '%s at %r K of '
                      'cut-off frequencies %s Hz' % (name, T, nu.tolist()))
        ctx.expect(got[1] >= 0 and got[2] >= 0, 'sign', 'S %r Cv %r at %r K' %
                   (got[1], got[2], T))
        ctx.expect(got[2] <= R * len(nu) * (1 + 1e-6), 'classical limit',
                   'Cv %r exceeds %d R' % (got[2], len(nu)))
        ctx.count('points', 3)
        dec.add(int(np.floor(np.log10(Planck * nu.max() / Boltzmann / T))))
        if T < 2:
            ctx.count('cold')
    for T in (0., 0):
        ctx.same([float(v) for v in observe(K, T)][1:], [0., 0.], 'zero',
                 'entropy and heat capacity at 0 K')
    ctx.close(K.helmholtz(0.), 0., 'zero', 0, 0, 'thermal energy at 0 K')
    # classical limit, with its leading correction
    T = 60 * Planck * nu.max() / Boltzmann
    ctx.close(K.heat_capacity(T), R * len(nu), 'classical limit', 1e-4,
              msg='Cv at high temperature')
    ctx.count('hot')
    # additive over branches, in any order
    T = temps[0]
    parts = np.sum([observe(Kieffer(np.array([f])), T) for f in nu], axis=0)
    ctx.close(observe(K, T), parts, 'additive', 1e-9, msg='sum of branches')
    perm = Kieffer(rng.permutation(nu))
    ctx.close(observe(perm, T), observe(K, T), 'additive', 1e-9,
              msg='order of the branches')
    # new frequencies in the same object
    other = frequencies(rng)
    K.acofreq = other
    ctx.close(observe(K, T), model(other, T), 'replaced', 1e-6, 1e-30,
              'after setting other frequencies')
    ctx.describe(frequencies=nu, temperatures=temps)
    ctx.nontrivial(len(nu), sorted(dec))


def consistency(ctx, rng, index):
    """S = -dF/dT, Cv = T dS/dT and scaling, on the program's own values."""
    from quantas.qha.utils.kieffer import Kieffer
    nu = frequencies(rng)
    K = Kieffer(nu)
    T = float(10**rng.uniform(0.5, 3.5))
    h = 2e-3 * T
    st = (-2, -1, 1, 2)
    w = (1, -8, 8, -1)
    dF = sum(c * K.helmholtz(T + k * h) for k, c in zip(st, w)) / (12 * h)
    dS = sum(c * K.entropy(T + k * h) for k, c in zip(st, w)) / (12 * h)
    F, S, C = observe(K, T)
    ctx.close(S, -dF, 'S=-dF/dT', 1e-5, 1e-6 * abs(F) / T, 'entropy at %r K '
              'of %s Hz' % (T, nu.tolist()))
    ctx.close(C, T * dS, 'C=TdS/dT', 1e-5, 1e-6 * S, 'heat capacity at %r K '
              'of %s Hz' % (T, nu.tolist()))
    k = float(10**rng.uniform(-0.5, 0.5))
    Q = Kieffer(nu * k)
    ctx.close(observe(Q, T * k), [k * F, S, C], 'scaling', 1e-6,
              1e-30, 'values at T*%g of frequencies*%g' % (k, k))
    ctx.count('derivatives')
    ctx.describe(frequencies=nu, T=T)
    ctx.nontrivial('consistency', len(nu), int(np.log10(nu.max() / T)))


def option(ctx, rng, index):
    """qha --acoustic on inputs without acoustic frequencies."""
    wd = cli.fresh(ctx)
    scheme, mini = (('freq', 'td')[index % 2], ('poly', 'eos')[index // 2 % 2])
    r = runs.qha(rng, wd, scheme=scheme, mini=mini, many=False, flags=False)
    flag = ('-a', '--acoustic')[index // 4 % 2]
    quiet = index % 3 == 0
    args = r.args + [flag] + (['-q'] if quiet else [])
    before = cli.snapshot(wd)
    o = cli.run(args, stdin='y\ny\ny\n', cwd=wd)
    ctx.expect(not o.crash, 'option:traceback', 'quantas %s: %r' % (
        ' '.join(args), o.exc))
    log = ''
    if os.path.isfile(r.path(r.log)):
        with open(r.path(r.log), encoding='utf8') as f:
            log = f.read()
    ctx.expect(not o.ok and cli.BANNER not in log, 'option:banner',
               'quantas %s claims success' % ' '.join(args))
    text = (o.text + log).lower()
    ctx.expect('acoustic' in text and cli.ERROR.lower() in text,
               'option:message',
               'no error message about acoustic data:\n' + o.text[-800:])
    after = cli.snapshot(wd)
    ctx.expect(not [n for n in after if n.endswith('.hdf5')],
               'option:results', 'results written: %s' % sorted(after))
    for n, c in before.items():
        ctx.same(after.get(n), c, 'option:input', n + ' changed')
    # the same run without the option is fine
    runs.go(ctx, r, stdin='y\n')
    ctx.count('refused_runs')
    ctx.describe(args=args)
    ctx.nontrivial('option', scheme, mini, flag, quiet)


def groups(tier):
    k = 12 if tier == 'thorough' else 1
    return [Group('values', 100 * k, values),
            Group('consistency', 150 * k, consistency),
            Group('option', 12 * (4 if k > 1 else 1), option)]
