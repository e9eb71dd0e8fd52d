"""C01: harmonic results against an independent oscillator model."""
import os

import numpy as np

from vlib import gen, ref
from vlib.core import Group

PROPERTY = 'C01'
RULE = ('random phonon documents (1-8 volumes, 1-7 q-points, 1-5 atoms, '
        'integer/fractional/normalised weights; acoustic zeros, imaginary, '
        'soft, stiff and numerically tiny modes) in random units, run through '
        'HACalculator on random temperature grids (0 K included), plus direct '
        'calls of the native functions; non-trivial = distinct (kind, shape, '
        'units, grid) with at least one positive mode')
MIN = {'distinct': 60, 'values_compared': 5000, 'zero_kelvin_rows': 5,
       'modes_zero_or_negative': 50}
ASSUMPTIONS = ['oracle: numpy double precision oscillator sums with 2019 SI '
               'constants, relative tolerance 1e-9 of the summed magnitudes']

TOL = 1e-9


def run_ha(ctx, d, u, tr, name='in.yaml'):
    from quantas.harmonic.harmonic import HACalculator
    path = gen.write_qha(os.path.join(ctx.workdir, name), d)
    calc = HACalculator(gen.ha_settings(u, tr))
    err = calc.read_input(path)
    ctx.expect(err is None, 'refused', 'valid input refused: %s' % err)
    calc.run()
    ctx.expect(calc.completed, 'incomplete', 'run not completed')
    return calc


def oracle(ctx, d, u, tk, res):
    nu = d['freq'] * ref.FREQ_HZ[u['frequency_unit']]
    want = ref.spectrum(nu, d['weights'], tk)
    eu = ref.ENERGY_J[u['energy_unit']]
    e0 = np.asarray(d['energy'])[None]
    at = 1e-14 * np.max(want['Fscale']) / eu
    zp = want['Uzp'][0] / eu
    ctx.close(np.ravel(res['Uzp']), zp, 'Uzp', TOL)
    ctx.close(res['Uth'], want['Uth'] / eu, 'Uth', TOL, at)
    ctx.close(res['Utot'], e0 + zp + want['Uth'] / eu, 'Utot', TOL,
              scale=np.abs(e0) * 1e-6 + zp + want['Uth'] / eu)
    ctx.close(res['S'], want['S'] * 1000 / eu, 'S', TOL,
              1e-14 * ref.KB * 1000 / eu)
    ctx.close(res['Cv'], want['Cv'] * 1000 / eu, 'Cv', TOL,
              1e-14 * ref.KB * 1000 / eu)
    ctx.close(res['Fvib'], want['Fvib'] / eu, 'Fvib', TOL,
              scale=want['Fscale'] / eu)
    ctx.close(res['F'], e0 + want['Fvib'] / eu, 'F', TOL,
              scale=np.abs(e0) * 1e-6 + want['Fscale'] / eu)
    ctx.count('modes_zero_or_negative', np.sum(nu <= 0))
    ctx.count('modes', nu.size)
    z = tk == 0.0
    if z.any():
        ctx.count('zero_kelvin_rows', z.sum())
        for k in ('Uth', 'S', 'Cv'):
            ctx.expect(np.all(np.asarray(res[k])[z] == 0), 'zero:' + k,
                       k + ' must vanish at 0 K')
        ctx.close(np.asarray(res['Fvib'])[z],
                  np.broadcast_to(zp, (int(z.sum()), zp.size)), 'zero:Fvib',
                  TOL)


def case_run(ctx, rng, i):
    u = gen.units(rng)
    d = gen.ha_case(rng, u)
    tr = gen.trange(rng, u['temperature_unit'])
    ctx.describe(units=u, kind=d['kind'], shape=d['freq'].shape, trange=tr,
                 weights=d['weights'])
    calc = run_ha(ctx, d, u, tr)
    t = np.asarray(calc.temperature)
    oracle(ctx, d, u, ref.to_kelvin(t, u['temperature_unit']), calc.results)
    if (d['freq'] > 0).any():
        ctx.nontrivial(d['kind'], d['freq'].shape, sorted(u.items()), tr)


def case_big(ctx, rng, i):
    """Larger spectra and long grids: more rows than threads."""
    u = gen.units(rng)
    d = gen.ha_case(rng, u, nv=int(rng.integers(6, 14)),
                    nq=int(rng.integers(8, 33)), nat=int(rng.integers(4, 12)))
    if i % 4 == 1:       # many points
        d = gen.ha_case(rng, u, nv=int(rng.integers(1, 4)),
                        nq=int(rng.integers(60, 280)), nat=1)
    elif i % 4 == 3:     # many atoms
        d = gen.ha_case(rng, u, nv=int(rng.integers(1, 4)),
                        nq=int(rng.integers(1, 3)),
                        nat=int(rng.integers(40, 110)))
    tr = (0.0, 1500.0, 10.0) if u['temperature_unit'] == 'K' else \
        (-273.15, 1500.0, 10.0)
    ctx.describe(units=u, kind=d['kind'], shape=d['freq'].shape, trange=tr)
    calc = run_ha(ctx, d, u, tr)
    t = np.asarray(calc.temperature)
    oracle(ctx, d, u, ref.to_kelvin(t, u['temperature_unit']), calc.results)
    ctx.nontrivial('big', d['kind'], d['freq'].shape)


def case_kernels(ctx, rng, i):
    """The native functions themselves: kJ/mol and J/mol/K, raw weights."""
    from quantas.utils.physics import statistical_mechanics as sm
    nt, nq = int(rng.integers(1, 9)), int(rng.integers(1, 6))
    nb, nv = int(rng.integers(1, 10)), int(rng.integers(1, 7))
    T = np.sort(rng.uniform(0, 3000, nt))
    if rng.random() < 0.5:
        T[0] = 0.0
    nu = 10**rng.uniform(9, 14.2, (nq, nb, nv))
    nu[rng.random(nu.shape) < 0.1] = 0.0
    nu[rng.random(nu.shape) < 0.1] *= -1
    w = rng.uniform(0.1, 4, nq)
    ctx.describe(nt=nt, nq=nq, nb=nb, nv=nv, T=T)
    nu = np.ascontiguousarray(nu)
    want = ref.spectrum(nu, w, T)
    k = w.sum() * ref.NA / 1000.
    at = 1e-14 * np.max(want['Fscale']) * k
    args = (T, nu, w)
    ctx.close(sm.zero_point_energy(*args), np.broadcast_to(
        want['Uzp'] * k, (nt, nv)), 'k:zpe', TOL)
    ctx.close(sm.thermal_energy(*args), want['Uth'] * k, 'k:eth', TOL, at)
    ctx.close(sm.entropy(*args), want['S'] * k * 1000, 'k:S', TOL, 1e-12)
    ctx.close(sm.isochoric_heat_capacity(*args), want['Cv'] * k * 1000,
              'k:Cv', TOL, 1e-12)
    ctx.close(sm.vibrational_free_energy(*args), want['Fvib'] * k, 'k:F', TOL,
              scale=want['Fscale'] * k)
    e0 = rng.uniform(-5, 5, nv)
    zp = rng.uniform(0, 1, nv)
    eth = rng.uniform(0, 1, (nt, nv))
    ctx.close(sm.internal_energy(e0, zp, eth), e0 + zp + eth, 'k:U', 1e-13,
              1e-13)
    ctx.close(sm.free_energy(e0, eth), e0 + eth, 'k:Ftot', 1e-13, 1e-13)
    ctx.nontrivial('kernel', nt, nq, nb, nv)


def case_example(ctx, rng, i):
    """The shipped MgO example, every unit relabelling as cm^-1/Ha/A."""
    from quantas.harmonic.harmonic import HACalculator
    import yaml
    path = os.path.join(ctx.src, 'examples', 'mgo_b3lyp_qha.yaml')
    y = yaml.safe_load(open(path))
    u = {'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
         'temperature_unit': 'K'}
    d = {'freq': np.array([[b['frequency'] for b in q['band']]
                           for q in y['phonon']]),
         'weights': np.array([q['weight'] for q in y['phonon']], float),
         'energy': np.array(y['energy'])}
    tr = (0., 2000., 20.)
    calc = HACalculator(gen.ha_settings(u, tr))
    ctx.expect(calc.read_input(path) is None, 'refused')
    calc.run()
    oracle(ctx, d, u, np.asarray(calc.temperature), calc.results)
    ctx.nontrivial('example')


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('run', 250 * k, case_run), Group('big', 16 * k, case_big),
            Group('kernels', 100 * k, case_kernels),
            Group('example', 1, case_example)]
