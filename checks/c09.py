"""C09: grids hold exactly the requested points, everywhere."""
import os
from fractions import Fraction

import h5py
import numpy as np

from vlib import cli, gen, qcase, qmodel
from vlib.core import Group

PROPERTY = 'C09'
RULE = ('temperature ranges of 1-2500 points in K and C and pressure ranges '
        'of 1-60 points in GPa and kbar, with steps that divide the range, '
        'do not divide it, are not representable in binary, exceed the range '
        'or are tiny, run through the ha and qha commands and calculators; '
        'expected points from exact decimal arithmetic; every results table, '
        'result file dataset and report checked for its rows and columns; '
        'non-trivial = distinct (range, unit, entry point)')
MIN = {'distinct': 150, 'grids': 150, 'dividing': 40, 'not_dividing': 40,
       'tables': 800, 'files': 20}
ASSUMPTIONS = ['a step divides the range when it does so in decimal '
               'arithmetic on the numbers as written (to 1e-9 of a step)']

STEPS = ('0.1', '0.2', '0.3', '0.7', '1', '1.1', '2.5', '5', '10', '25',
         '0.05', '0.01', '3.3', '7', '33', '100', '0.37', '0.15', '12.34',
         '0.005', '0.0025', '0.001', '0.0003')
PSTEPS = ('0.1', '0.2', '0.3', '0.25', '0.5', '1', '0.7', '0.15', '0.05',
          '0.33', '1.1', '2', '0.0005', '0.0025', '0.001', '0.01')


def expected(r):
    """Exact decimal points of a range of decimal strings."""
    lo, hi, st = (Fraction(x) for x in r)
    n = int((hi - lo) / st)
    return np.array([float(lo + st * k) for k in range(n + 1)])


def dec(fr):
    """Decimal string of a fraction with a finite expansion."""
    from decimal import Decimal, localcontext
    with localcontext() as c:
        c.prec = 40
        d = Decimal(fr.numerator) / Decimal(fr.denominator)
    return format(d.normalize(), 'f')


def make_range(ctx, rng, steps, nmax, lows):
    st = Fraction(gen.pick(rng, steps))
    lo = Fraction(gen.pick(rng, lows))
    n = int(gen.pick(rng, (0, 1, 2, 3))) if rng.random() < 0.3 else \
        int(rng.integers(0, nmax))
    hi = lo + st * n
    if rng.random() < 0.5:
        hi += st * Fraction(int(rng.integers(1, 100)), 100)
        ctx.count('not_dividing')
    else:
        ctx.count('dividing')
    return tuple(dec(x) for x in (lo, hi, st))


def t_range(ctx, rng, tunit, nmax):
    lows = ('0', '0', '298.15', '300', '10', '0.5', '273.15') \
        if tunit == 'K' else ('-273.15', '0', '25', '-100', '-273.15', '20.1')
    return make_range(ctx, rng, STEPS, nmax, lows)


def grid(ctx, got, want, key):
    got = np.asarray(got)
    ctx.count('grids')
    ctx.expect(got.shape == want.shape, key + ':points',
               '%d points, expected %d: last %r, expected %r' % (
                   got.size, want.size, got[-1:].tolist(),
                   want[-1:].tolist()))
    ctx.close(got, want, key + ':values', 1e-12, 1e-9)
    ctx.expect(np.all(np.diff(got) > 0), key + ':order',
               'not increasing')


HAROWS = ('Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv')


def tables(ctx, r, shape, keys, tag):
    for k in keys:
        ctx.count('tables')
        ctx.expect(np.shape(r[k]) == shape, tag + ':shape',
                   '%s has shape %s, expected %s' % (k, np.shape(r[k]),
                                                     shape))


def ha_doc(ctx, rng, u, path=None):
    d = gen.ha_case(rng, u, nv=int(gen.pick(rng, (1, 2, 3, 5))),
                    nq=int(gen.pick(rng, (1, 2))), nat=1)
    return d, gen.write_qha(path or os.path.join(ctx.workdir, 'g.yaml'), d)


def case_ha(ctx, rng, i):
    from quantas.harmonic.harmonic import HACalculator
    u = gen.units(rng)
    d, path = ha_doc(ctx, rng, u)
    tr = t_range(ctx, rng, u['temperature_unit'],
                 int(gen.pick(rng, (30, 120, 2500))))
    ctx.describe(trange=tr, units=u)
    calc = HACalculator(gen.ha_settings(u, tuple(map(float, tr))))
    ctx.expect(calc.read_input(path) is None, 'refused')
    want = expected(tr)
    grid(ctx, calc.temperature, want, 'ha:T')
    calc.run()
    ctx.expect(calc.completed, 'incomplete')
    grid(ctx, calc.temperature, want, 'ha:T')
    tables(ctx, calc.results, (want.size, len(d['volume'])), HAROWS, 'ha')
    ctx.expect(np.size(calc.results['Uzp']) == len(d['volume']), 'ha:shape',
               'zero-point energies')
    ctx.nontrivial('ha', tr, u['temperature_unit'])


def case_qha(ctx, rng, i):
    """Calculator settings: many grids, evaluated on small ones."""
    m, u, vols, tmax, pmax = qmodel.model_setup(rng)
    k = 10 if u['pressure_unit'] == 'kbar' else 1
    while True:
        tr = t_range(ctx, rng, u['temperature_unit'], 12)
        pr = make_range(ctx, rng, PSTEPS, 6, ('0', '0', '0', '0.1', '0.25'))
        off = 273.15 if u['temperature_unit'] == 'C' else 0
        if float(tr[1]) + off <= tmax and float(pr[1]) <= pmax:
            break
    pr = tuple(dec(Fraction(x) * k) for x in pr)
    c = qcase.Case()
    d = m.document(u, vols)
    path = gen.write_qha(os.path.join(ctx.workdir, 'q.yaml'), d)
    s = qmodel.settings(u, tuple(map(float, tr)), tuple(map(float, pr)),
                        scheme=gen.pick(rng, ('td', 'freq')),
                        mini=gen.pick(rng, ('poly', 'poly', 'eos')))
    ctx.describe(trange=tr, prange=pr, units=u, scheme=s['qha_scheme'],
                 mini=s['minimization'])
    calc = qmodel.run(ctx, path, s)
    wt, wp = expected(tr), expected(pr)
    grid(ctx, calc.temperature, wt, 'qha:T')
    grid(ctx, calc.pressure, wp, 'qha:P')
    tables(ctx, calc.results, (wt.size, wp.size),
           ('VT', 'KT', 'Uth', 'Utot', 'S', 'F', 'Fvib', 'Cv', 'H', 'G',
            'Cp', 'alphaV', 'KS', 'gruneisen'), 'qha')
    ctx.nontrivial('qha', tr, pr)


def case_grids(ctx, rng, i):
    """Grids alone: thousands of ranges through the calculators' settings."""
    from quantas.harmonic.harmonic import HACalculator
    from quantas.qha.qha import QHACalculator
    u = dict(gen.units(rng), pressure_unit=gen.pick(rng, ('GPa', 'kbar')))
    for _ in range(20):
        tr = t_range(ctx, rng, u['temperature_unit'], 2500)
        pr = make_range(ctx, rng, PSTEPS, 60,
                        ('0', '-1', '0.1', '10', '-0.5'))
        ctx.describe(trange=tr, prange=pr, units=u)
        ft, fp = tuple(map(float, tr)), tuple(map(float, pr))
        h = HACalculator(gen.ha_settings(u, ft))
        q = QHACalculator(qmodel.settings(u, ft, fp))
        grid(ctx, h.temperature, expected(tr), 'ha:T')
        grid(ctx, q.temperature, expected(tr), 'qha:T')
        grid(ctx, q.pressure, expected(pr), 'qha:P')
    ctx.nontrivial('grid', tr, pr)




def case_cli(ctx, rng, i):
    """The commands: points written to the result file are those used."""
    wd = cli.fresh(ctx)
    qha = bool(i % 2)
    tu = gen.pick(rng, ('K', 'C'))
    u = {'energy_unit': 'Ha', 'lenght_unit': 'A', 'frequency_unit': 'cm^-1',
         'temperature_unit': tu}
    path = os.path.join(wd, 'in.yaml')
    if qha:
        pu = gen.pick(rng, ('GPa', 'kbar'))
        u['pressure_unit'] = pu
        m, _, vols, tmax, pmax = qmodel.model_setup(rng)
        while True:
            tr = t_range(ctx, rng, tu, 12)
            pr = make_range(ctx, rng, PSTEPS, 6, ('0', '0', '0.1'))
            if float(tr[1]) + 273.15 * (tu == 'C') <= tmax and \
                    float(pr[1]) * (1 if pu == 'GPa' else 0.1) <= pmax:
                break
        d = m.document(u, vols)
        gen.write_qha(path, d)
        args = ['qha', path, '--punit', pu, '-P'] + list(pr)
        out = 'in_QHA.hdf5'
    else:
        d, _ = ha_doc(ctx, rng, u, path)
        tr = t_range(ctx, rng, tu, 200)
        pr = None
        args = ['ha', path]
        out = 'in_HA.hdf5'
    args += ['--tunit', tu, '-T'] + list(tr)
    if rng.random() < 0.3:
        args.append('-q')
    ctx.describe(args=args[2:])
    cli.must(ctx, args, cwd=wd,
             log=os.path.join(wd, out[:-5] + '.txt'))
    wt = expected(tr)
    with h5py.File(os.path.join(wd, out), 'r') as f:
        grid(ctx, f['T'][()], wt, 'file:T')
        ctx.expect(f['T'].attrs['unit'] == tu, 'file:T:unit')
        if qha:
            wp = expected(pr)
            grid(ctx, f['P'][()], wp, 'file:P')
            ctx.expect(f['P'].attrs['unit'] == pu, 'file:P:unit')
            cols = wp.size
        else:
            cols = len(d['volume'])
        n = 0
        for k in f.keys():
            if k in ('T', 'P', 'V', 'U0', 'Uzp'):
                continue
            n += 1
            ctx.count('tables')
            ctx.expect(f[k].shape == (wt.size, cols), 'file:shape',
                       '%s has shape %s, expected %s' % (
                           k, f[k].shape, (wt.size, cols)))
        ctx.expect(n >= 6, 'file:tables', 'tables missing')
    ctx.count('files')
    ctx.nontrivial('cli', tr, pr)


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('grids', 60 * k, case_grids), Group('ha', 200 * k, case_ha),
            Group('qha', 80 * k, case_qha), Group('cli', 60 * k, case_cli)]
