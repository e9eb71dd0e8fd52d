"""C03: the same crystal in different units gives the same physics."""
import os

import numpy as np

from vlib import gen, qcase, qmodel, ref
from vlib.core import Group

PROPERTY = 'C03'
RULE = ('the same crystal written in two random unit systems and run with '
        'temperature (and pressure) ranges denoting the same states; every '
        'result table converted back to SI must agree; all 36 harmonic unit '
        'systems against one another, quasi-harmonic over every route; '
        'non-trivial = distinct (unit pair, route)')
MIN = {'distinct': 60, 'ha_pairs': 36, 'qha_pairs': 30,
       'values_compared': 10000}
ASSUMPTIONS = ['input re-expressed in another unit is rounded to double '
               'precision, and fits are re-done on the rounded data: '
               'tolerance 1e-9 (harmonic), 1e-6 (polynomial), 1e-4 (EoS)']

ALLU = [{'energy_unit': e, 'lenght_unit': v, 'frequency_unit': f,
         'temperature_unit': t}
        for e in gen.UNITS['energy_unit'] for v in gen.UNITS['lenght_unit']
        for f in gen.UNITS['frequency_unit']
        for t in gen.UNITS['temperature_unit']]


def ha_doc(d, u):
    """SI-ish document (J, m^3, Hz) in the units of u."""
    o = dict(d)
    o['energy'] = d['energy'] / ref.ENERGY_J[u['energy_unit']]
    o['volume'] = d['volume'] / ref.LENGTH_M[u['lenght_unit']]**3
    o['freq'] = d['freq'] / ref.FREQ_HZ[u['frequency_unit']]
    return o


def run_ha(ctx, d, u, tr):
    from quantas.harmonic.harmonic import HACalculator
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    p = gen.write_qha(os.path.join(ctx.workdir, 'h.yaml'), ha_doc(d, u))
    c = HACalculator(gen.ha_settings(u, (tr[0] + off, tr[1] + off, tr[2])))
    err = c.read_input(p)
    ctx.expect(err is None, 'refused', str(err))
    c.run()
    e = ref.ENERGY_J[u['energy_unit']]
    out = {k: np.array(c.results[k], float) * e *
           (1e-3 if k in ('S', 'Cv') else 1.0)
           for k in ('Uzp', 'Uth', 'Utot', 'S', 'F', 'Fvib', 'Cv')}
    out['T'] = ref.to_kelvin(np.asarray(c.temperature),
                             u['temperature_unit'])
    return out


def case_ha(ctx, rng, i):
    u0 = {'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'Hz',
          'temperature_unit': 'K'}
    d = gen.ha_case(rng, u0, kind=gen.pick(rng, ('plain', 'acoustic', 'soft',
                                                 'mixed')))
    d['energy'] = d['energy'] * ref.HA
    d['volume'] = d['volume'] * ref.ANG**3
    n = int(rng.integers(1, 15))
    step = float(gen.pick(rng, (5., 10., 37.5, 100.)))
    lo = float(gen.pick(rng, (0., 1., 10., 298.15)))
    tr = (lo, lo + step * (n - 1), step)
    ua, ub = ALLU[i % 36], ALLU[int(rng.integers(36))]
    ctx.describe(kind=d['kind'], a=ua, b=ub, trange=tr)
    a, b = run_ha(ctx, d, ua, tr), run_ha(ctx, d, ub, tr)
    # 273.15 is rounded: the two grids differ by an ulp, so does 0 K
    ctx.close(b['T'], a['T'], 'ha:T', 1e-12, 1e-9)
    fs = np.abs(a['Fvib']) + a['Uzp'] + a['Uth']
    kb = ref.KB * 3 * d['natom']
    for k in ('Uzp', 'Uth', 'Fvib', 'S', 'Cv', 'F', 'Utot'):
        sc = {'S': a['S'] + kb, 'Cv': kb * np.ones_like(a['Cv'])}.get(
            k, fs + (1e-4 * np.abs(a['F']) if k in ('F', 'Utot') else 0))
        ctx.close(b[k], a[k], 'ha:' + k, 1e-9,
                  scale=np.broadcast_to(sc, a[k].shape)
                  if k != 'Uzp' else a[k])
    ctx.count('ha_pairs')
    ctx.nontrivial('ha', sorted(ua.items()), sorted(ub.items()), d['kind'])


def case_qha(ctx, rng, i):
    m, u, vols, tmax, pmax = qmodel.model_setup(rng)
    ub = qmodel.units(rng)
    k = ('energy_unit', 'lenght_unit', 'frequency_unit', 'temperature_unit',
         'pressure_unit')[i % 5]
    alts = [x for x in qmodel.UNITS[k] if x != u[k]]
    ub[k] = gen.pick(rng, alts)
    a = qcase.build(ctx, rng, model=(m, u, vols, tmax, pmax),
                    mini=('poly', 'eos')[i % 2])
    a_off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    b_off = -273.15 if ub['temperature_unit'] == 'C' else 0.0
    f = ref.PRESS_PA[u['pressure_unit']] / ref.PRESS_PA[ub['pressure_unit']]
    b = qcase.Case()
    b.__dict__.update(a.__dict__)
    b.u = ub
    b.tr = (a.tr[0] - a_off + b_off, a.tr[1] - a_off + b_off, a.tr[2])
    b.pr = tuple(float('%.10g' % (x * f)) for x in a.pr)
    b.d = m.document(ub, vols)
    b.path = gen.write_qha(os.path.join(ctx.workdir, 'b.yaml'), b.d)
    b.s = qcase.settings(b)
    ctx.describe(a=u, b=ub, scheme=a.scheme, mini=a.mini, edeg=a.edeg,
                 fdeg=a.fdeg, trange=a.tr, prange=a.pr)
    qcase.execute(ctx, a)
    qcase.execute(ctx, b)
    ctx.close(b.T, a.T, 'qha:T', 1e-12, 1e-9)
    ctx.close(b.P, a.P, 'qha:P', 1e-9, 1.0)
    qcase.agree(ctx, a, b, 'qha:')
    ctx.count('qha_pairs')
    ctx.nontrivial('qha', sorted(u.items()), sorted(ub.items()), a.scheme,
                   a.mini)


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('ha', 108 * k, case_ha), Group('qha', 60 * k, case_qha)]
