"""C02: thermodynamic identities over whole harmonic tables."""
import numpy as np

from vlib import gen, ref
from vlib.core import Group
from checks.c01 import run_ha

PROPERTY = 'C02'
RULE = ('random phonon documents in random units on fine temperature grids '
        '(steps 0.5-4 K for derivative identities, coarse grids 0-6000 K for '
        'limits and monotonicity); non-trivial = distinct (kind, shape, '
        'units, grid) whose thermal energy is not identically zero')
MIN = {'distinct': 60, 'derivative_points': 2000, 'monotone_points': 5000,
       'dulong_petit_columns': 20}
ASSUMPTIONS = ['no model of the oscillator is used: only relations between '
               'reported tables; central differences carry a third-derivative '
               'error bound estimated from the table itself']


def tables(ctx, calc, u):
    eu = ref.ENERGY_J[u['energy_unit']]
    r = {k: np.asarray(v) for k, v in calc.results.items()}
    out = {k: r[k] * eu for k in ('Uth', 'Utot', 'F', 'Fvib', 'Uzp')}
    out['S'] = r['S'] * eu / 1000.
    out['Cv'] = r['Cv'] * eu / 1000.
    out['U0'] = np.asarray(calc.input.energy) * eu
    T = ref.to_kelvin(np.asarray(calc.temperature), u['temperature_unit'])
    return T, out


def identities(ctx, T, r, npos):
    """Algebraic identities and signs. npos: weighted positive modes (nv)."""
    T2 = T[:, None]
    U = r['Utot']
    sc = np.abs(r['U0'])[None] * 1e-5 + r['Uzp'].reshape(1, -1) + \
        r['Uth'] + T2 * r['S']
    ctx.close(r['F'], U - T2 * r['S'], 'F=U-TS', 1e-9, scale=sc)
    ctx.close(r['F'], r['U0'][None] + r['Fvib'], 'F=U0+Fvib', 1e-9, scale=sc)
    ctx.close(U, r['U0'][None] + r['Uzp'].reshape(1, -1) + r['Uth'],
              'U=U0+Uzp+Uth', 1e-9, scale=sc)
    ctx.expect(np.all(r['Uzp'] >= 0), 'sign:Uzp')
    cap = npos * ref.KB
    for k, s in (('S', cap), ('Uth', cap * max(T[-1], 1.0)), ('Cv', cap)):
        tol = 1e-10 * s + 1e-300
        ctx.expect(np.all(r[k] >= -tol), 'sign:' + k, k + ' negative')
        if len(T) > 1:
            ctx.count('monotone_points', r[k].size)
            dd = np.diff(r[k], axis=0)
            ctx.expect(np.all(dd >= -tol), 'monotone:' + k,
                       '%s decreases with temperature (by %g)' % (
                           k, -dd.min()))
    ctx.expect(np.all(r['Cv'] <= cap * (1 + 1e-8) + 1e-300), 'dulong:above',
               'Cv exceeds the Dulong-Petit limit')
    ctx.expect(np.all(r['Uth'] <= npos * ref.KB * T2 * (1 + 1e-8) + 1e-300),
               'equipartition', 'thermal energy above n k T')
    ctx.expect(np.all(r['Fvib'] <= r['Uzp'].reshape(1, -1) * (1 + 1e-9)
                      + 1e-300), 'Fvib<=Uzp')


def npositive(d):
    w = d['weights'] / d['weights'].sum()
    return np.sum((d['freq'] > 0) * w[:, None, None], axis=(0, 1))


def case_deriv(ctx, rng, i):
    u = gen.units(rng)
    d = gen.ha_case(rng, u, nv=int(gen.pick(rng, (1, 2, 4)))) \
        if i % 4 else gen.ha_case(rng, u)
    h = float(gen.pick(rng, (0.5, 1.0, 2.0, 4.0)))
    lo = float(np.round(rng.uniform(40, 1500), 1))
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    tr = (lo + off, lo + off + 20 * h, h)
    ctx.describe(units=u, kind=d['kind'], shape=d['freq'].shape, trange=tr)
    calc = run_ha(ctx, d, u, tr)
    T, r = tables(ctx, calc, u)
    identities(ctx, T, r, npositive(d))
    hh = T[1] - T[0]
    cap = (npositive(d) * ref.KB)[None]

    def check(f, want, key, scale, noise):
        """Five-point derivative of the table f."""
        der = (f[:-4] - 8 * f[1:-3] + 8 * f[3:-1] - f[4:]) / (12 * hh)
        # fifth-derivative error from a lower-order comparison
        d3 = (f[3:-1] - f[1:-3]) / (2 * hh)
        err = np.abs(der - d3) * 0.05 * (hh / T[2:-2, None])**0 \
            + 1e-7 * scale + noise / hh
        bad = np.abs(der - want[2:-2]) > err
        ctx.count('derivative_points', der.size)
        ctx.expect(not bad.any(), key, 'identity violated', worst=float(
            np.max(np.abs(der - want[2:-2]) / scale)))
    eps = 4e-15
    # truncation of the five-point rule scales with (h/T)^4 at these T
    trunc = 30 * (hh / T[0])**4
    check(r['Uth'], r['Cv'], 'Cv=dU/dT', cap * (1 + 1e6 * trunc),
          eps * np.max(np.abs(r['Uth'])))
    check(r['Fvib'], -r['S'], 'S=-dF/dT', cap * (20 + 1e6 * trunc),
          eps * np.max(np.abs(r['Fvib'])))
    check(r['F'], -r['S'], 'S=-dFtot/dT', cap * (20 + 1e6 * trunc),
          eps * np.max(np.abs(r['F'])))
    check(r['S'], r['Cv'] / T[:, None], 'Cv=TdS/dT',
          cap / T[0] * (1 + 1e6 * trunc), eps * np.max(np.abs(r['S'])))
    if r['Uth'].max() > 0:
        ctx.nontrivial('deriv', d['kind'], d['freq'].shape,
                       sorted(u.items()), tr)


def case_limits(ctx, rng, i):
    u = gen.units(rng)
    d = gen.ha_case(rng, u)
    if i % 6 == 3:       # many points
        d = gen.ha_case(rng, u, nq=int(rng.integers(60, 200)), nat=1,
                        nv=int(rng.integers(1, 4)))
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    tr = (off, off + 12000.0, float(gen.pick(rng, (100.0, 150.0, 300.0))))
    ctx.describe(units=u, kind=d['kind'], shape=d['freq'].shape, trange=tr)
    calc = run_ha(ctx, d, u, tr)
    T, r = tables(ctx, calc, u)
    n = npositive(d)
    identities(ctx, T, r, n)
    # T -> 0
    for k in ('S', 'Cv', 'Uth'):
        ctx.expect(np.all(r[k][0] == 0), 'zero:' + k)
    ctx.close(r['Fvib'][0], np.ravel(r['Uzp']), 'zero:Fvib', 1e-10)
    # Dulong-Petit: Cv = n k (1 - x^2/12 + ...), x <= xmax at the last T
    nu = d['freq'] * ref.FREQ_HZ[u['frequency_unit']]
    xm = ref.H * nu.max() / (ref.KB * T[-1])
    if nu.max() > 0:
        low = n * ref.KB * max(0.0, 1 - xm**2 / 12)
        ctx.count('dulong_petit_columns', n.size)
        ctx.expect(np.all(r['Cv'][-1] >= low * (1 - 1e-9)), 'dulong:below',
                   'Cv does not approach n k_B')
        ctx.nontrivial('limits', d['kind'], d['freq'].shape,
                       sorted(u.items()), tr)


def case_cold(ctx, rng, i):
    """Smooth vanishing of S and Cv as T -> 0 with only stiff modes."""
    u = gen.units(rng)
    d = gen.ha_case(rng, u, kind='plain')
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    tr = (off, off + 60.0, float(gen.pick(rng, (0.5, 1.0, 3.0))))
    ctx.describe(units=u, kind='cold', shape=d['freq'].shape, trange=tr)
    calc = run_ha(ctx, d, u, tr)
    T, r = tables(ctx, calc, u)
    identities(ctx, T, r, npositive(d))
    nu = d['freq'] * ref.FREQ_HZ[u['frequency_unit']]
    with np.errstate(all='ignore'):
        xmin = ref.H * nu.min() / (ref.KB * T)
        bound = 3 * d['natom'] * ref.KB * np.where(
            T > 0, (xmin**2 + xmin + 2) * np.exp(-xmin) * 1.6, 0.0)
    ok = xmin > 3
    for k in ('S', 'Cv'):
        ctx.expect(np.all(r[k][ok] <= bound[ok][:, None] + 1e-300),
                   'third-law:' + k, k + ' does not vanish as T -> 0')
    ctx.nontrivial('cold', d['freq'].shape, sorted(u.items()), tr)


def case_soft(ctx, rng, i):
    """The same identities below a few kelvin, with modes that are still
    thermally active there."""
    u = gen.units(rng)
    d = gen.ha_case(rng, u, kind='plain')
    f = d['freq']
    soft = rng.random(f.shape[:2]) < (0.5, 1.0)[i % 2]
    soft[0, 0] = True
    low = 10**rng.uniform(-3, 1, f.shape[:2]) * 100 * ref.C / \
        ref.FREQ_HZ[u['frequency_unit']]
    f = np.where(soft[:, :, None], low[:, :, None] * rng.uniform(
        0.9, 1.1, f.shape), f)
    d['freq'] = f
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    h = float(gen.pick(rng, (0.01, 0.05, 0.2)))
    tr = (off + (h if i % 3 else 0), off + 30 * h, h)
    ctx.describe(units=u, kind='soft', shape=f.shape, trange=tr)
    calc = run_ha(ctx, d, u, tr)
    T, r = tables(ctx, calc, u)
    n = npositive(d)
    identities(ctx, T, r, n)
    # F = U - TS without the large energies of the crystal

    ctx.close(r['Fvib'] - r['Uzp'].reshape(1, -1) - r['Uth'] +
              T[:, None] * r['S'], np.zeros(r['S'].shape), 'soft:F=U-TS',
              0, 1e-7 * ref.KB * (T.max() + 1e-3) * n[None])
    # entropy from the heat capacity
    ctx.expect(np.all(r['S'][T > 0] >= 0), 'sign:S')
    w = (d['weights'] / d['weights'].sum())[:, None, None]
    with np.errstate(all='ignore'):
        nu = f * ref.FREQ_HZ[u['frequency_unit']]
        hot = np.array([(w * (nu * ref.H < 0.01 * ref.KB * t)).sum((0, 1))
                        for t in T])
    # classical modes hold k each (Cv) and at least k (S)
    for k in ('S', 'Cv'):
        ctx.expect(np.all(r[k] >= hot * ref.KB * (1 - 1e-3) - 1e-300),
                   'soft:' + k, k + ' below that of the classical modes')
    ctx.nontrivial('soft', f.shape, sorted(u.items()), tr)


def groups(tier):
    k = 1 if tier == 'quick' else 15
    return [Group('deriv', 120 * k, case_deriv),
            Group('limits', 120 * k, case_limits),
            Group('cold', 60 * k, case_cold),
            Group('soft', 60 * k, case_soft)]
