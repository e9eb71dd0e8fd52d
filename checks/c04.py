"""C04: unit conversions against SI definitions, round trips, composition."""
import numpy as np

from vlib import ref
from vlib.core import Group

PROPERTY = 'C04'
RULE = ('every ordered pair and triple of supported scales of every '
        'conversion function in every documented spelling and letter case, '
        'with scalars, ints, lists and float/int arrays of 0-3 dimensions '
        '(zero, negative, huge and tiny magnitudes); plus unknown scale '
        'names; non-trivial = distinct (function, spelling pair, container)')
MIN = {'distinct': 300, 'round_trips': 200, 'compositions': 200,
       'refusals': 100, 'arguments_checked': 1000}
ASSUMPTIONS = ['CODATA 2018 constants, relative tolerance 1e-9']

# documented spellings -> SI value of one unit
ENERGY = {'Hartree': ref.HA, 'hartree': ref.HA, 'Ha': ref.HA, 'ha': ref.HA,
          'electron volt': ref.EV, 'eV': ref.EV, 'ev': ref.EV,
          'Rydberg': ref.RY, 'rydberg': ref.RY, 'Ry': ref.RY, 'ry': ref.RY,
          'kJ/mol': 1000 / ref.NA, 'kj/mol': 1000 / ref.NA,
          'kjmol': 1000 / ref.NA}
PRESS = {'Pa': 1., 'pa': 1., 'kPa': 1e3, 'kpa': 1e3, 'MPa': 1e6, 'mpa': 1e6,
         'GPa': 1e9, 'gpa': 1e9, 'bar': 1e5, 'kbar': 1e8, 'Mbar': 1e11,
         'mbar': 1e11, 'Gbar': 1e14, 'gbar': 1e14}
FREQ = {'cm^-1': 100 * ref.C, 'Hz': 1., 'hz': 1., 'THz': 1e12, 'thz': 1e12}
LENGTH = {'metre': 1., 'm': 1., 'angstrom': ref.ANG, 'Angstrom': ref.ANG,
          'A': ref.ANG, 'a': ref.ANG, 'Bohr': ref.BOHR, 'bohr': ref.BOHR}
VOLUME = {k: v**3 for k, v in LENGTH.items()}
TEMP = {'Celsius': 'C', 'celsius': 'C', 'C': 'C', 'c': 'C', '°C': 'C', '°c': 'C', 'Kelvin': 'K',
        'kelvin': 'K', 'K': 'K', 'k': 'K', 'Fahrenheit': 'F',
        'fahrenheit': 'F', 'F': 'F', 'f': 'F', 'Rankine': 'R',
        'rankine': 'R', 'R': 'R', 'r': 'R'}
E_ED = {k: v for k, v in ENERGY.items() if 'j' not in k.lower()}
V_ED = {k: v for k, v in VOLUME.items() if k not in ('metre', 'm')}


def t_kelvin(v, s):
    v = np.asarray(v, float)
    return {'C': lambda: v + 273.15, 'K': lambda: v,
            'F': lambda: (v + 459.67) * 5 / 9, 'R': lambda: v * 5 / 9}[s]()


def t_from(k, s):
    return {'C': lambda: k - 273.15, 'K': lambda: k,
            'F': lambda: k * 9 / 5 - 459.67, 'R': lambda: k * 9 / 5}[s]()


def sample(rng, kind):
    """(value, name): a container of test numbers."""
    def r(*shape):
        x = rng.standard_normal(shape) * 10.0**rng.integers(-6, 7, shape)
        return x
    if kind == 'float':
        return float(r())
    if kind == 'npfloat':
        return np.float64(r())
    if kind == 'int':
        return int(rng.integers(-50, 400))
    if kind == 'list':
        return [float(v) for v in r(4)] + [0.0]
    if kind == 'intlist':
        return [1, 20, -3]
    if kind == 'tuple':
        return tuple(float(v) for v in r(3))
    if kind == 'intarray':
        return rng.integers(-5, 900, 6)
    if kind == '0d':
        return np.array(float(r()))
    if kind == '1d':
        return np.concatenate([r(int(rng.integers(1, 9))), [0.0]])
    if kind == 'empty':
        return np.zeros(0)
    if kind == 'strided':
        return r(9)[::2]
    if kind == 'unit':
        return r(*((2, 1, 3), (1, 1), (1, 4, 1), (1,), (3, 1, 1, 2))[
            int(rng.integers(5))])
    if kind == 'empty2':
        return np.zeros((0, 3))
    if kind == 'nested':
        return [[float(v) for v in r(3)] for _ in range(2)]
    if kind == 'long':
        return r(int(rng.integers(200, 3000)))
    if kind == 'fortran':
        return np.asfortranarray(r(3, 4))
    return r(2, 3, 4)


KINDS = ('float', 'npfloat', 'int', 'list', 'intlist', 'tuple', 'intarray',
         '0d', '1d', 'empty', 'strided', 'fortran', '3d', 'unit', 'empty2',
         'nested', 'long')


def copyof(v):
    return v.copy() if isinstance(v, np.ndarray) else (
        list(v) if isinstance(v, list) else v)


def call(ctx, fn, val, *scales):
    """Call and check that the argument is untouched."""
    before = copyof(val)
    out = fn(val, *scales)
    ctx.count('arguments_checked')
    if isinstance(val, np.ndarray):
        ctx.expect(val.dtype == before.dtype and val.shape == before.shape and
                   np.array_equal(val, before), 'mutated:' + fn.__name__,
                   'argument modified by %s%s' % (fn.__name__, scales))
    else:
        ctx.expect(val == before, 'mutated:' + fn.__name__)
    return out


def linear(name):
    from quantas.utils.physics import units as U
    return {'energy': (U.convert_energy, ENERGY),
            'pressure': (U.convert_pressure, PRESS),
            'frequency': (U.convert_frequency, FREQ),
            'length': (U.convert_lenght, LENGTH),
            'volume': (U.convert_volume, VOLUME)}[name]


def family(name):
    def case(ctx, rng, i):
        fn, tab = linear(name)
        names = sorted(tab)
        ctx.describe(function=fn.__name__, spellings=names)
        for a in names:
            for b in names:
                kind = KINDS[int(rng.integers(len(KINDS)))]
                v = sample(rng, kind)
                want = np.asarray(v, float) * (tab[a] / tab[b])
                got = call(ctx, fn, v, a, b)
                ctx.close(got, want, '%s:value' % name, 1e-9,
                          msg='%s(%s, %s, %s)' % (fn.__name__, kind, a, b))
                back = call(ctx, fn, got, b, a)
                ctx.close(back, np.asarray(v, float), '%s:roundtrip' % name,
                          1e-12)
                ctx.count('round_trips')
                c = names[int(rng.integers(len(names)))]
                ctx.close(fn(fn(v, a, c), c, b), got, '%s:compose' % name,
                          1e-12)
                ctx.count('compositions')
                ctx.nontrivial(name, a, b, kind)
    return case


def case_temperature(ctx, rng, i):
    from quantas.utils.physics.units import convert_temperature as fn
    ctx.describe(function='convert_temperature')
    for a in sorted(TEMP):
        for b in sorted(TEMP):
            kind = KINDS[int(rng.integers(len(KINDS)))]
            v = sample(rng, kind)
            k = t_kelvin(v, TEMP[a])
            want = t_from(k, TEMP[b])
            got = call(ctx, fn, v, a, b)
            sc = np.abs(np.asarray(v, float)) + 500.
            ctx.close(got, want, 'temperature:value', 1e-12, scale=2 * sc,
                      msg='convert_temperature(%s, %s, %s)' % (kind, a, b))
            ctx.close(call(ctx, fn, got, b, a), np.asarray(v, float),
                      'temperature:roundtrip', 1e-12, scale=4 * sc)
            ctx.count('round_trips')
            c = sorted(TEMP)[int(rng.integers(len(TEMP)))]
            ctx.close(fn(fn(v, a, c), c, b), got, 'temperature:compose',
                      1e-12, scale=4 * sc)
            ctx.count('compositions')
            ctx.nontrivial('temperature', a, b, kind)


def case_density(ctx, rng, i):
    """energy/volume <-> pressure."""
    from quantas.utils.physics.units import (energy_to_pressure as e2p,
                                             pressure_to_energy as p2e)
    ctx.describe(function='energy_to_pressure/pressure_to_energy')
    for e in sorted(E_ED):
        for v in sorted(V_ED):
            for p in sorted(PRESS):
                kind = KINDS[int(rng.integers(len(KINDS)))]
                x = sample(rng, kind)
                f = E_ED[e] / V_ED[v] / PRESS[p]
                got = call(ctx, e2p, x, e, v, p)
                ctx.close(got, np.asarray(x, float) * f, 'density:to_pressure',
                          1e-9, msg='energy_to_pressure(%s,%s,%s,%s)' % (
                              kind, e, v, p))
                ctx.close(call(ctx, p2e, got, e, v, p), np.asarray(x, float),
                          'density:roundtrip', 1e-12)
                ctx.close(call(ctx, p2e, x, e, v, p), np.asarray(x, float) / f,
                          'density:to_energy', 1e-9)
                ctx.count('round_trips', 2)
                ctx.nontrivial('density', e, v, p, kind)


def case_cross(ctx, rng, i):
    """Functions agree with each other where their scales meet."""
    from quantas.utils.physics import units as U
    x = rng.uniform(0.1, 50, 5)
    ctx.describe(function='cross', x=x)
    for a in ('A', 'Bohr', 'm'):
        for b in ('A', 'Bohr', 'm'):
            ctx.close(U.convert_volume(x**3, a, b),
                      U.convert_lenght(x, a, b)**3, 'cross:volume', 1e-9)
    for e in ('Ha', 'eV', 'Ry'):
        for v in ('A', 'bohr'):
            # rescaling energy and volume separately changes nothing
            p = U.energy_to_pressure(x, e, v, 'GPa')
            for e2 in ('Ha', 'eV', 'Ry'):
                y = U.convert_energy(x, e, e2)
                ctx.close(U.energy_to_pressure(y, e2, v, 'GPa'), p,
                          'cross:energy', 1e-9)
            for p2 in ('kbar', 'Pa', 'Mbar'):
                ctx.close(U.convert_pressure(p, 'GPa', p2),
                          U.energy_to_pressure(x, e, v, p2),
                          'cross:pressure', 1e-9)
            w = U.convert_volume(1.0, v, 'm')
            j = U.convert_energy(x, e, 'kJ/mol') * 1000 / ref.NA
            ctx.close(p, j / w / 1e9, 'cross:si', 1e-9)
    ctx.nontrivial('cross', x)


BAD = ('', 'foo', 'kelvins', 'hartrees', 'kcal', 'atm', 'torr', 'nm', 'cm',
       'km', 'J', 'Hz^-1', 'x', 'degree', 'gp', 'cm-2', 'evv')


def case_unknown(ctx, rng, i):
    from quantas.utils.physics import units as U
    good = {'convert_temperature': ('K',), 'convert_energy': ('Ha',),
            'convert_pressure': ('GPa',), 'convert_frequency': ('THz',),
            'convert_lenght': ('A',), 'convert_volume': ('A',)}
    ctx.describe(function='unknown scales', names=BAD)

    def refused(fn, *a):
        try:
            out = fn(*a)
        except Exception:
            ctx.count('refusals')
            ctx.count('oracle_evaluations')
            return
        ctx.fail('accepted:' + fn.__name__, '%s%r returned %r' % (
            fn.__name__, a, out))
    for name, (g,) in sorted(good.items()):
        fn = getattr(U, name)
        for bad in BAD:
            for v in (1.0, np.array([1.0, 2.0])):
                refused(fn, v, bad, g)
                refused(fn, v, g, bad)
                ctx.nontrivial('unknown', name, bad)
    for fn in (U.energy_to_pressure, U.pressure_to_energy):
        for bad in BAD:
            refused(fn, 1.0, bad, 'A', 'GPa')
            refused(fn, 1.0, 'Ha', bad, 'GPa')
            refused(fn, 1.0, 'Ha', 'A', bad)
    # scales of one quantity are unknown to another
    refused(U.convert_energy, 1.0, 'GPa', 'Ha')
    refused(U.convert_pressure, 1.0, 'Ha', 'GPa')
    refused(U.convert_frequency, 1.0, 'Ha', 'THz')
    refused(U.convert_lenght, 1.0, 'Ha', 'A')
    refused(U.energy_to_pressure, 1.0, 'GPa', 'A', 'GPa')


def groups(tier):
    k = 1 if tier == 'quick' else 40
    gs = [Group(n, 4 * k, family(n)) for n in
          ('energy', 'pressure', 'frequency', 'length', 'volume')]
    gs += [Group('temperature', 4 * k, case_temperature),
           Group('density', 2 * k, case_density),
           Group('cross', 4 * k, case_cross),
           Group('unknown', 1, case_unknown)]
    return gs
