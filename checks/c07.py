"""C07: potentials and coefficients of a quasi-harmonic run agree."""
import numpy as np

from vlib import gen, qcase, qmodel, ref
from vlib.core import Group

PROPERTY = 'C07'
RULE = ('model crystals in random units run through QHACalculator with every '
        'scheme, minimisation and degree, 1-61 temperatures (49, 50 and 51 '
        'over-represented), 1-4 pressures; every (T,P) entry of every result '
        'table is checked against thermodynamic identities computed with '
        'independent constants; non-trivial = distinct (route, units, grid)')
MIN = {'distinct': 40, 'state_points': 2500, 'long_runs': 20,
       'short_runs': 20, 'bulk_checked': 300, 'alpha_checked': 1500,
       'tall_grids': 1}
ASSUMPTIONS = ['identities hold to 1e-9 of the vibrational terms plus 1e-12 '
               'of the total energy; K_T to 2e-4 and K\' to 0.1 '
               '(differences of an interpolated curve)',
               'alpha may be any finite-difference estimate: it must lie '
               'between the one-sided slopes of ln V']


def identities(ctx, c):
    r, T, P = c.r, c.T[:, None], c.P[None, :]
    u0 = np.abs(r['Utot']).max()
    at = 1e-12 * u0
    vib = np.abs(r['Fvib']) + r['Uzp'] + np.abs(r['Uth'])
    ctx.close(r['F'], r['Utot'] - T * r['S'], 'F=U-TS', 1e-8, at, scale=vib)
    ctx.close(r['H'], r['Utot'] + P * r['VT'], 'H=U+PV', 1e-13,
              1e-14 * u0, scale=np.abs(r['H']) + P * r['VT'])
    ctx.close(r['G'], r['F'] + P * r['VT'], 'G=F+PV', 1e-13, 1e-14 * u0,
              scale=np.abs(r['G']) + P * r['VT'])
    st = c.route.pU(r['VT'])
    ctx.close(r['Utot'] - r['Uzp'] - r['Uth'], st, 'U=U0+Uzp+Uth', 1e-8, at,
              scale=vib)
    ctx.close(r['F'] - r['Fvib'], st, 'F=U0+Fvib', 1e-8, at, scale=vib)


def tables(ctx, c, step):
    """Uzp, Uth, S, Cv, Fvib at V(T,P) against the interpolated curves."""
    r = c.r
    pts = [(i, j) for i in range(len(c.T)) for j in range(len(c.P))][::step]
    kb = ref.KB * 3 * c.m.nat
    for i, j in pts:
        V, T = r['VT'][i, j], c.T[i]
        w = c.route.at(V, T)
        fs = float(w['Uzp'].item() if np.ndim(w['Uzp']) else w['Uzp']) + \
            kb * T * 3
        for k, sc in (('Uzp', fs), ('Uth', fs), ('Fvib', fs), ('S', kb),
                      ('Cv', kb)):
            ctx.close(r[k][i, j], np.ravel(w[k])[0], 'table:' + k, 0,
                      1e-7 * sc, '%s at T=%g' % (k, T))
        lo, hi = c.route.V.min(), c.route.V.max()
        if c.mini == 'poly':
            if not lo <= V <= hi:
                continue
            kt, kp = c.route.bulk(V, T)
            ctx.close(r['KT'][i, j], kt, 'KT', 2e-4, msg='KT at T=%g' % T)
            if not (c.scheme == 'freq' and c.edeg == 2):
                ctx.close(r['Kp'][i, j], kp, 'Kp', 0.01, 0.1,
                          "K' at T=%g" % T)
            ctx.count('bulk_checked')
        else:
            v, k, kp = c.route.volume(T, c.P[j])
            if lo <= v <= hi:
                ctx.close(r['KT'][i, j], k, 'KT', 1e-3, msg='KT at T=%g' % T)
                ctx.close(r['Kp'][i, j], kp, 'Kp', 0.0, 0.1,
                          "K' at T=%g" % T)
                ctx.count('bulk_checked')


def coefficients(ctx, c):
    r, T = c.r, c.T
    V, KT, Cv = r['VT'], r['KT'], r['Cv']
    n = len(T)
    if n < 50:
        ctx.count('short_runs')
        for k in ('alphaV', 'Cp', 'Cp-Cv', 'gruneisen'):
            ctx.expect(np.all(r[k] == 0), 'short:' + k,
                       k + ' must be zero below 50 temperatures')
        ctx.same(np.asarray(c.calc.results['KS'], float),
                 np.asarray(c.calc.results['KT'], float), 'short:KS')
        return
    ctx.count('long_runs')
    s = np.diff(V, axis=0) / np.diff(T)[:, None]
    fwd = np.vstack([s, s[-1:]])
    bwd = np.vstack([s[:1], s])
    lo, hi = np.minimum(fwd, bwd), np.maximum(fwd, bwd)
    # a second-order one-sided edge estimate extrapolates the two last slopes
    for e, k in ((0, 1), (-1, -2)):
        d = np.abs(s[e] - s[k])
        lo[e] -= d
        hi[e] += d
    a = r['alphaV'] * V
    tol = 1e-9 * np.abs(s).max() + 1e-13 * V.max() / np.diff(T).min()
    ctx.count('alpha_checked', a.size)
    ctx.expect(np.all((a >= lo - tol) & (a <= hi + tol)), 'alpha',
               'thermal expansion is not d ln V / dT')
    al, Tm = r['alphaV'], T[:, None]
    corr = al**2 * V * KT * Tm
    tiny = 1e-13 * ref.KB
    ctx.close(r['Cp-Cv'], corr, 'Cp-Cv', 1e-9, tiny * 1e-6)
    ctx.close(r['Cp'], Cv + corr, 'Cp', 1e-9, tiny,
              scale=np.abs(Cv) + np.abs(corr))
    z = (Tm == 0) | (Cv == 0)
    with np.errstate(all='ignore'):
        ks = np.where(z, KT, KT + al**2 * V * Tm * KT**2 / Cv)
        ga = np.where(Cv == 0, 0.0, al * V * KT / Cv)
    ctx.close(r['KS'], ks, 'KS', 1e-9, scale=np.abs(ks) + KT)
    ctx.close(r['gruneisen'], ga, 'gamma', 1e-9)
    phys = Cv > 0
    ctx.expect(np.all(r['KS'][phys] >= KT[phys] * (1 - 1e-14)), 'KS>=KT')


def case(ctx, rng, i):
    c = qcase.build(ctx, rng, mini=('poly', 'eos')[i % 2], many=i % 4 < 2)
    if i % 5 == 0:       # the threshold itself
        n = (49, 50, 51)[i // 5 % 3]
        lo = c.tr[0]
        c.tr = (lo, lo + 4.0 * (n - 1), 4.0)
        c.s = qcase.settings(c)
    elif i % 8 == 1:     # cryogenic: steps of a kelvin and less
        st = (1.0, 0.5, 0.25)[i // 8 % 3]
        off = -273.15 if c.u['temperature_unit'] == 'C' else 0.0
        c.tr = (off, off + st * (51 + i // 8 % 4), st)
        c.s = qcase.settings(c)
    elif i % 16 == 6:    # several hundred rows
        n = int(rng.integers(260, 400))
        st = max(0.5, np.floor(4 * c.tmax / n) / 4)
        off = -273.15 if c.u['temperature_unit'] == 'C' else 0.0
        c.tr = (off, off + st * (n - 1), st)
        c.pr = (c.pr[0], c.pr[0], c.pr[2])
        c.mini = 'poly'
        c.s = qcase.settings(c)
        ctx.count('tall_grids')
    qcase.execute(ctx, c)
    identities(ctx, c)
    pts = len(c.T) * len(c.P)
    tables(ctx, c, max(1, pts // (10 if c.mini == 'eos' else 16)))
    coefficients(ctx, c)
    ctx.nontrivial(c.scheme, c.mini, c.eos, c.edeg, c.fdeg,
                   sorted(c.u.items()), c.tr, c.pr)


def case_example(ctx, rng, i):
    """The shipped MgO example through all routes."""
    import os
    import yaml
    path = os.path.join(ctx.src, 'examples', 'mgo_b3lyp_qha.yaml')
    y = yaml.safe_load(open(path))
    c = qcase.Case()
    c.u = {'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
           'temperature_unit': 'K', 'pressure_unit': 'GPa'}
    c.d = {'freq': np.array([[b['frequency'] for b in q['band']]
                             for q in y['phonon']], float),
           'weights': np.array([q['weight'] for q in y['phonon']], float),
           'energy': np.array(y['energy']), 'volume': np.array(y['volume'])}
    c.path = path
    c.m = qcase.Case()
    c.m.nat = 2
    c.scheme, c.mini = ('td', 'freq')[i % 2], ('poly', 'eos')[i // 2 % 2]
    c.eos = qmodel.EOS[i // 4 % 4]
    c.edeg = c.fdeg = 3
    c.tr, c.pr = (0., 600., 10.), (0., 10., 5.)
    c.s = qcase.settings(c)
    ctx.describe(example=True, scheme=c.scheme, mini=c.mini, eos=c.eos)
    qcase.execute(ctx, c)
    identities(ctx, c)
    tables(ctx, c, 12)
    coefficients(ctx, c)
    ctx.nontrivial('example', c.scheme, c.mini, c.eos)


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('run', 64 * k, case), Group('example', 8, case_example)]
