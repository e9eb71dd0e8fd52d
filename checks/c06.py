"""C06: reported volumes are minima of F(V,T) + PV."""
import numpy as np

from vlib import gen, qcase, ref
from vlib.core import Group

PROPERTY = 'C06'
RULE = ('model crystals (4 equations of state, power-law or quadratic '
        'frequencies, random units, 6-12 volumes) run through QHACalculator '
        'with every scheme/minimisation/degree, with and without noise on the '
        'static energies; an independent fit gives the stationary points; '
        'non-trivial = distinct (route, degree, EoS, units, grid)')
MIN = {'distinct': 60, 'volumes_checked': 1500, 'slopes_P': 300,
       'slopes_T': 300, 'noisy_points': 100, 'eos_volumes': 100,
       'fine_steps': 8}
ASSUMPTIONS = ['the free-energy curve is the least-squares polynomial (or '
               'EoS) through the harmonic free energies of the sampled '
               'volumes, evaluated by an independent Chebyshev / scipy fit',
               'points with no minimum, or several, inside the sampled '
               'volumes are only required to be one of the minima']

KTYP = 1e11        # Pa


def volumes(ctx, c, noisy):
    """Every reported volume against the independent stationary points."""
    V, K = c.r['VT'], c.r['KT']
    lo, hi = c.route.V.min(), c.route.V.max()
    ok = np.zeros(V.shape, bool)
    pts = [(i, j) for i in range(len(c.T)) for j in range(len(c.P))]
    if c.mini == 'eos':
        step = max(1, len(pts) // 24)
        pts = pts[::step]
    for i, j in pts:
        T, P = c.T[i], c.P[j]
        if c.mini == 'poly':
            mins = c.route.minima(T, P)
            inside = mins[(mins >= lo) & (mins <= hi)]
            if len(inside) == 1:
                p = c.route.table(T)['fit']['F']
                k0 = abs(V[i, j] * p.deriv(2)(V[i, j]))
                # a flat minimum is only located to the error of the slope
                flat = max(1., KTYP / k0)
                if noisy and c.edeg > 3:
                    # sensitivity of a fit with residuals: condition squared
                    flat *= 100.
                ctx.close(V[i, j], inside[0], 'volume', 1e-7 * flat,
                          msg='VT at T=%g P=%g' % (T, P))
                ctx.close(-p.deriv()(V[i, j]), P, 'pressure', 0, 1e-6 * k0 * flat,
                          '-dF/dV at the reported volume')
                ctx.expect(p.deriv(2)(V[i, j]) > 0, 'curvature')
                ok[i, j] = True
                ctx.count('volumes_checked')
                if len(mins) > 1:
                    ctx.count('rejected_spurious_minimum')
                if noisy:
                    ctx.count('noisy_points')
            elif len(inside) > 1:
                ctx.expect(np.min(np.abs(inside / V[i, j] - 1)) < 1e-6,
                           'volume', 'VT is none of the minima', V=V[i, j],
                           minima=inside)
                ctx.count('several_minima')
            else:
                ctx.count('outside_samples')
        else:
            v, k, kp = c.route.volume(T, P)
            if v < lo or v > hi:
                ctx.count('outside_samples')
                continue
            ctx.close(V[i, j], v, 'volume', 3e-5,
                      msg='EoS VT at T=%g P=%g' % (T, P))
            ctx.expect(K[i, j] > 0, 'curvature', 'EoS K0 not positive')
            ctx.count('volumes_checked')
            ctx.count('eos_volumes')
    if c.mini == 'eos':
        ok = (V >= lo) & (V <= hi)
    return ok


def slopes(ctx, c, ok):
    """V falls with P; G rises with P at slope V and falls with T at
    slope -S.

    With thermodynamic interpolation and polynomial minimisation the bounds
    are exact (G is the minimum of a convex function); other routes get the
    fitting error as slack.
    """
    exact = c.mini == 'poly' and c.scheme == 'td'
    V, G, S = c.r['VT'], c.r['G'], c.r['S']
    # rounding of a polynomial in powers of the volume
    eps = (1e-14 if c.edeg < 4 else 1e-12) * \
        (np.abs(G) + np.abs(c.r['F'])).max()
    rel = 1e-7 if exact else 0.02
    kv = (np.abs(c.r['KT']) * V).max()
    for j in range(len(c.P) - 1):
        m = ok[:, j] & ok[:, j + 1]
        dP = c.P[j + 1] - c.P[j]
        a, b = V[m, j], V[m, j + 1]
        ctx.count('slopes_P', m.sum())
        ctx.expect(np.all(b <= a * (1 + (1e-9 if c.mini == 'poly' else 1e-5))),
                   'monotone', 'volume grows with pressure', a=a, b=b)
        dG = (G[:, j + 1] - G[:, j])[m]
        # fitted curves other than td/poly may sit off the minimum
        slack = eps + rel * a * dP + (0 if exact else 1e-5 * kv)
        ctx.expect(np.all(dG <= a * dP + slack) and
                   np.all(dG >= b * dP - slack), 'dGdP',
                   'G(P) slope is not the volume', dG=dG, hi=a * dP,
                   lo=b * dP)
    for i in range(len(c.T) - 1):
        m = ok[i] & ok[i + 1]
        dT = c.T[i + 1] - c.T[i]
        dG = (G[i + 1] - G[i])[m]
        ctx.count('slopes_T', m.sum())
        smax = S[i + 1][m]
        slack = eps + rel * np.abs(smax) * dT + \
            (1e-9 * kv if exact else 1e-5 * kv)
        ctx.expect(np.all(dG <= -S[i][m] * dT + slack) and
                   np.all(dG >= -smax * dT - slack), 'dGdT',
                   'G(T) slope is not -S', dG=dG, hi=-S[i][m] * dT,
                   lo=-smax * dT, T=c.T[i])


def sig(ctx, c, noise):
    ctx.nontrivial(c.scheme, c.mini, c.eos if c.mini == 'eos' else '',
                   c.edeg, c.fdeg, sorted(c.u.items()), c.tr, c.pr, noise)


def case_clean(ctx, rng, i):
    mini = ('poly', 'eos')[i % 2]
    # other routes than td/poly only obey the slope laws to fitting error
    c = qcase.build(ctx, rng, mini=mini, many=i % 4 < 2)
    if i % 6 == 2:       # temperatures next to each other
        n, st = int(rng.integers(3, 9)), float(gen.pick(
            rng, (0.01, 0.02, 0.05, 0.09, 0.2)))
        lo = c.tr[0] + float(np.round(0.6 * (c.tr[1] - c.tr[0])))
        c.tr = (lo, lo + st * (n - 1), st)
        c.s = qcase.settings(c)
        ctx.describe(trange=c.tr)
        ctx.count('fine_steps')
    qcase.execute(ctx, c)
    ok = volumes(ctx, c, False)
    if c.mini == 'poly' and c.scheme == 'td' or \
            c.edeg >= 4 and c.fdeg >= 3 and (
                c.mini == 'poly' or c.eos == c.m.eos):
        slopes(ctx, c, ok)
    sig(ctx, c, 0)


def grid_si(c):
    """Requested temperatures (K) and pressures (Pa)."""
    t0, t1, dt = c.tr
    p0, p1, dp = c.pr
    T = t0 + dt * np.arange(int(np.floor((t1 - t0) / dt + 1e-6)) + 1)
    P = p0 + dp * np.arange(int(np.floor((p1 - p0) / dp + 1e-6)) + 1)
    return ref.to_kelvin(T, c.u['temperature_unit']), \
        P * ref.PRESS_PA[c.u['pressure_unit']]


def case_noise(ctx, rng, i):
    """Noisy energies: high-degree polynomials grow spurious minima."""
    noise = float(gen.pick(rng, (1e-5, 1e-4, 5e-4)))
    c = qcase.build(ctx, rng, noise=noise, mini='poly', many=False,
                    edeg=int(gen.pick(rng, (3, 4, 5, 5))))
    if qcase.execute(ctx, c, may_fail=True) is None:
        # legitimate only when some free-energy curve has no minimum at all
        T, P = grid_si(c)
        ctx.expect(any(len(c.route.minima(t, p)) == 0 for t in T for p in P),
                   'incomplete', 'failed although every curve has a minimum: '
                   + str(c.calc.error))
        ctx.count('no_minimum_refused')
        return
    ok = volumes(ctx, c, True)
    if c.scheme == 'td':
        slopes(ctx, c, ok)
    sig(ctx, c, noise)


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('clean', 72 * k, case_clean),
            Group('noise', 40 * k, case_noise)]
