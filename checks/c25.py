"""C25: result files hold exactly what was computed, correctly labelled."""
import contextlib
import io
import os

import h5py
import numpy as np

from vlib import cli, gen, runs
from vlib.core import Group

PROPERTY = 'C25'
RULE = ('random harmonic, quasi-harmonic and elastic runs in every unit '
        'system, scheme, minimisation, title and grid shape, through the '
        'commands and the calculators; every dataset compared bit for bit '
        'with the in-memory tables of the same computation, every unit, '
        'description, title and scheme with what was asked; files written '
        'over older, larger ones; non-trivial = distinct (kind, units, '
        'scheme, shape, entry)')
MIN = {'distinct': 60, 'files': 80, 'datasets': 900, 'units': 1500,
       'commands': 25, 'overwritten': 20, 'large': 4}
ASSUMPTIONS = ['a second computation of the same input is bit-identical '
               '(decided by C05 and C23)',
               'entropies and heat capacities are labelled with a leading m '
               '(thousandths)']

DESCS = {'T': 'temperature', 'P': 'pressure', 'V': 'volume', 'U0': 'static',
         'Uzp': 'zero-point', 'Uth': 'thermal', 'Utot': 'energy',
         'S': 'entropy', 'Fvib': 'vibrational', 'F': 'helmholtz',
         'Cv': 'isochoric', 'VT': 'volume', 'Cp': 'isobaric',
         'Cp-Cv': 'isobaric', 'KT': 'isothermal', 'KS': 'adiabatic',
         'Kp': 'derivative', 'H': 'enthalpy', 'G': 'gibbs',
         'alphaV': 'expansion', 'gruneisen': 'neisen'}
HA = ('Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv')
QHA = HA + ('VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G', 'alphaV',
            'gruneisen')


def unit_of(kind, k, u):
    if k in ('S', 'Cv', 'Cp', 'Cp-Cv'):
        return 'm' + u['energy_unit']
    return {'T': u['temperature_unit'], 'P': u.get('pressure_unit'),
            'V': u['lenght_unit'], 'VT': u['lenght_unit'],
            'KT': u.get('pressure_unit'), 'KS': u.get('pressure_unit'),
            'Kp': '', 'gruneisen': '', 'alphaV': 'K^-1'}.get(
                k, u['energy_unit'])


def text(x):
    return x.decode('utf8') if isinstance(x, bytes) else str(x)


def field(ctx, info, name, want):
    """'- name: value' line of the metadata."""
    got = [l.split(':', 1)[1].strip() for l in info.splitlines()
           if l.strip().lstrip('- ').startswith(name) and ':' in l]
    ctx.expect(got == [want], 'info:' + name.replace(' ', '_'),
               '%r reported as %r, expected %r' % (name, got, want))
    ctx.count('units')


def array(ctx, f, k, want, key):
    ctx.expect(k in f, key + ':missing', 'no dataset %s in %s' % (
        k, sorted(f.keys())))
    got = f[k][()]
    w = np.asarray(want)
    ctx.expect(got.dtype == np.float64, key + ':dtype', '%s is %s' % (
        k, got.dtype))
    ctx.same(got, w, key + ':' + k, 'dataset ' + k)
    ctx.count('datasets')


def unit(ctx, f, k, want, key):
    got = f[k].attrs.get('unit')
    ctx.expect(got is not None and text(got) == want, key + ':unit:' + k,
               'unit of %s is %r, expected %r' % (k, got, want))
    ctx.count('units')


def thermo(ctx, path, r, calc):
    names = HA if r.kind == 'ha' else QHA
    with h5py.File(path, 'r') as f:
        info = text(f.attrs['info'])
        ctx.expect('This file was created with Quantas' in info, 'info')
        ctx.expect(('(QHA)' if r.kind == 'qha' else '(HA)') in info,
                   'info:kind', info)
        field(ctx, info, 'Job', r.title)
        for s, k in (('energy scale', 'energy_unit'),
                     ('volume scale', 'lenght_unit'),
                     ('frequency scale', 'frequency_unit'),
                     ('temperature scale', 'temperature_unit')):
            field(ctx, info, s, r.u[k])
        if r.kind == 'qha':
            field(ctx, info, 'pressure scale', r.u['pressure_unit'])
            low = info.lower()
            line = [x for x in low.splitlines() if 'thermodynamics:' in x]
            ctx.expect(len(line) == 1 and (
                'frequency' if r.scheme == 'freq' else 'thermodynamic inter')
                in line[0].split(':')[1].strip() + ' ', 'info:scheme', info)
            ctx.expect(('frequency' in line[0].split(':')[1]) ==
                       (r.scheme == 'freq'), 'info:scheme', info)
            line = [x for x in low.splitlines() if 'minimiza' in x]
            ctx.expect(len(line) == 1 and ('eos' in line[0].split(':')[1]) ==
                       (r.mini == 'eos') and
                       ('polynomial' in line[0].split(':')[1]) ==
                       (r.mini == 'poly'), 'info:minimisation', info)
        extra = ('T', 'P') if r.kind == 'qha' else ('T', 'V', 'U0')
        ctx.same(sorted(f.keys()), sorted(names + extra), 'datasets',
                 'datasets in the file')
        array(ctx, f, 'T', calc.temperature, 'file')
        if r.kind == 'qha':
            array(ctx, f, 'P', calc.pressure, 'file')
        else:
            array(ctx, f, 'V', calc.input.volume, 'file')
            array(ctx, f, 'U0', calc.input.energy, 'file')
            ctx.close(f['V'][()], r.d['volume'], 'file:V', 1e-15)
            ctx.close(f['U0'][()], r.d['energy'], 'file:U0', 1e-15)
        for k in names:
            array(ctx, f, k, calc.results[k], 'file')
        for k in names + extra:
            unit(ctx, f, k, unit_of(r.kind, k, r.u), 'file')
            d = text(f[k].attrs.get('desc', '')).lower()
            ctx.expect(DESCS[k] in d, 'file:desc:' + k, '%s described as %r'
                       % (k, d))


POLAR = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '',
         'waves': 'km s^-1'}


def elastic(ctx, path, r, calc):
    with h5py.File(path, 'r') as f:
        info = text(f.attrs['info'])
        ctx.expect('This file was created with Quantas' in info, 'info')
        field(ctx, info, 'pressure scale', 'GPa')
        want = ['stiffness', 'compliance', 'averages', 'eigenvals']
        if r.polar:
            want += ['polar_%s_%s' % (k, p) for k in POLAR
                     for p in ('xy', 'xz', 'yz') if k != 'waves' or r.rho]
        ctx.same(sorted(f.keys()), sorted(want), 'datasets')
        array(ctx, f, 'stiffness', calc.soec.stiffness, 'file')
        array(ctx, f, 'compliance', calc.soec.compliance, 'file')
        array(ctx, f, 'averages', calc.results['avgs'], 'file')
        array(ctx, f, 'eigenvals', calc.results['eigv'], 'file')
        ctx.close(f['stiffness'][()], r.C, 'file:stiffness', 1e-15)
        for k, u in (('stiffness', 'GPa'), ('compliance', 'GPa^-1'),
                     ('averages', 'GPa'), ('eigenvals', 'GPa')):
            unit(ctx, f, k, u, 'file')
        if r.polar:
            for p in ('xy', 'xz', 'yz'):
                for k in calc.results['polar'][p]:
                    n = 'polar_%s_%s' % (k, p)
                    array(ctx, f, n, calc.results['polar'][p][k], 'file')
                    unit(ctx, f, n, POLAR[k], 'file')


def verify(ctx, path, r, calc):
    (elastic if r.kind == 'soec' else thermo)(ctx, path, r, calc)
    # the program's own reader gives the same back
    from quantas.IO.hdf5_reader import QuantasHDF5Reader
    rd = QuantasHDF5Reader(path)
    rd.read()
    with h5py.File(path, 'r') as f:
        for k in f:
            ctx.expect(rd.has_data(k) is True, 'reader', 'no ' + k)
            ctx.same(np.asarray(rd.get_data(k)), f[k][()], 'reader:data', k)
            ctx.same(text(rd.get_attribute(k, 'unit')),
                     text(f[k].attrs['unit']), 'reader:unit')
            a = f[k][()]
            n = len(a) // 2
            ctx.same(np.asarray(rd.get_data_row(k, n)), a[n], 'reader:row',
                     'row %d of %s' % (n, k))
            if a.ndim == 2:
                n = a.shape[1] - 1
                ctx.same(np.asarray(rd.get_data_column(k, n)), a[:, n],
                         'reader:column', 'column %d of %s' % (n, k))
            ctx.expect(any(x.strip().startswith(k + ':')
                           for x in rd.info.splitlines()), 'reader:info',
                       '%s is not listed' % k)
        ctx.expect(rd.has_data('nothing') is not True, 'reader:absent',
                   'has a dataset it does not have')
    ctx.expect('This file was created with Quantas' in rd.info, 'reader:info')
    ctx.count('files')


def snapshot(calc, kind):
    def flat(o, p=''):
        if isinstance(o, dict):
            for k in sorted(o):
                yield from flat(o[k], p + '/' + str(k))
        else:
            yield p, np.array(o, copy=True)
    return dict(flat(calc.results))


def case(ctx, rng, i):
    kind = ('ha', 'qha', 'soec')[i % 3]
    wd = cli.fresh(ctx)
    # every title with every command
    r = runs.MAKERS[kind](rng, wd,
                          title=runs.TITLES[i // 3 % len(runs.TITLES)])
    ctx.describe(args=r.args, title=r.title)
    calc = runs.calculator(ctx, r)
    before = snapshot(calc, kind)
    path = r.path('export.hdf5')
    if i % 2:
        # over an older and larger file
        with h5py.File(path, 'w') as f:
            f.create_dataset('old', data=np.arange(500000.))
            f.create_dataset('T', data=np.arange(5000.))
            f.attrs['info'] = 'old'
        ctx.count('overwritten')
    with contextlib.redirect_stdout(io.StringIO()):
        calc.export_hdf5(path)
    verify(ctx, path, r, calc)
    after = snapshot(calc, kind)
    for k in before:
        ctx.same(after[k], before[k], 'export:results', 'results changed by '
                 'the export: ' + k)
    ctx.nontrivial(kind, getattr(r, 'u', None), r.title,
                   getattr(r, 'scheme', None), getattr(r, 'mini', None))


def case_cli(ctx, rng, i):
    kind = ('ha', 'qha', 'soec')[i % 3]
    wd = cli.fresh(ctx)
    r = runs.MAKERS[kind](rng, wd)
    ctx.describe(args=r.args, title=r.title)
    stdin = None
    if i % 2:
        os.makedirs(os.path.dirname(r.path(r.out)), exist_ok=True)
        with h5py.File(r.path(r.out), 'w') as f:
            f.create_dataset('old', data=np.arange(50000.))
            f.attrs['info'] = 'old'
        stdin = 'y\n'
        ctx.count('overwritten')
    runs.go(ctx, r, stdin)
    calc = runs.calculator(ctx, r)
    verify(ctx, r.path(r.out), r, calc)
    ctx.nontrivial('cli', kind, getattr(r, 'u', None),
                   getattr(r, 'scheme', None), getattr(r, 'mini', None))


def case_large(ctx, rng, i):
    """Many temperatures and pressures or volumes."""
    wd = cli.fresh(ctx)
    if i % 2:
        r = runs.qha(rng, wd, scheme='td' if i % 4 == 1 else 'freq',
                     mini='poly', shape=[(400, 21), (90, 60)][i // 2 % 2])
    else:
        r = runs.ha(rng, wd, nv=int(rng.integers(3, 10)), tmax=20)
        t0 = r.tr[0]
        r.tr = (t0, t0 + 0.5 * 2600, 0.5)
        k = r.args.index('-T')
        r.args[k + 1:k + 4] = [runs.cut(x) for x in r.tr]
        r.settings = gen.ha_settings(r.u, r.tr)
    ctx.describe(args=r.args, title=r.title)
    if i % 3:
        calc = runs.calculator(ctx, r)
        with contextlib.redirect_stdout(io.StringIO()):
            calc.export_hdf5(r.path('export.hdf5'))
        verify(ctx, r.path('export.hdf5'), r, calc)
    else:
        runs.go(ctx, r)
        calc = runs.calculator(ctx, r)
        verify(ctx, r.path(r.out), r, calc)
    ctx.count('large')
    ctx.nontrivial('large', r.kind, r.tr)


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('large', 6 * k, case_large), Group('calculator', 72 * k, case), Group('cli', 39 * k,
                                                      case_cli)]
