"""Operations over every stateful class of the program, as deterministic
functions of a seed, and digests of everything they show."""
import contextlib
import hashlib
import io
import os
import re
import types

import numpy as np

from vlib import abinitio, cli, elastic as el, eosref, gen, qmodel, runs
from vlib.core import Ctx

SKIP = {'log', 'file'}
_TIME = re.compile(r'(?i)^.*(time|elapsed).*$', re.M)
_NUM = re.compile(r'[ \t]*[0-9.]+(e[-+]?[0-9]+)?[ \t]*')
_ADDR = re.compile(r'0x[0-9a-f]{6,}')


def text(s):
    """Without operation times and addresses."""
    return _ADDR.sub('0x', _TIME.sub(lambda m: _NUM.sub('#', m.group()), s))


def observe(o, depth=0, seen=None):
    """Plain tree of everything public the object shows."""
    seen = seen or ()
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return text(o) if isinstance(o, str) else o
    if isinstance(o, float):
        return ('float', float(o).hex() if o == o else 'nan')
    if isinstance(o, np.generic):
        return ('np', o.dtype.str, o.tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('objects', o.shape, [observe(x, depth + 1, seen)
                                         for x in o.ravel()])
        return ('array', o.dtype.str, o.shape, np.ascontiguousarray(
            o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [observe(x, depth + 1, seen) for x in o])
    if isinstance(o, (set, frozenset)):
        return ('set', sorted(map(repr, o)))
    if isinstance(o, dict):
        return ('dict', sorted(((repr(k), observe(v, depth + 1, seen))
                                for k, v in o.items()), key=lambda t: t[0]))
    if isinstance(o, BaseException):
        return ('raises', type(o).__name__)
    if isinstance(o, (types.FunctionType, types.MethodType, type,
                      types.ModuleType, types.BuiltinFunctionType)) or \
            callable(o) and not hasattr(o, '__dict__'):
        return 'callable'
    if depth > 6 or any(o is s for s in seen):
        return 'cycle'
    if not type(o).__module__.startswith('quantas'):
        return ('foreign', type(o).__name__)
    out = []
    for name in sorted(dir(o)):
        if name.startswith('_') or name in SKIP:
            continue
        try:
            v = getattr(o, name)
        except Exception as e:
            v = e
        if isinstance(v, (types.MethodType, types.FunctionType, type,
                          types.BuiltinFunctionType)):
            continue
        out.append((name, observe(v, depth + 1, seen + (o,))))
    return (type(o).__name__, out)


def first_difference(a, b, path=''):
    """Where two trees differ, for the message."""
    if type(a) is not type(b):
        return '%s: %s against %s' % (path, short(a), short(b))
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d against %d items: %s / %s' % (
                path, len(a), len(b), short(a), short(b))
        if len(a) == 4 and a[0] == 'array' and a != b:
            if a[1:3] == b[1:3] and a[1][1] in 'fiu':
                return '%s: %s against %s' % (
                    path, np.frombuffer(a[3], a[1])[:6],
                    np.frombuffer(b[3], b[1])[:6])
            return '%s: %s%s against %s%s' % (path, a[1], a[2], b[1], b[2])
        name = a[0] if a and isinstance(a[0], str) else ''
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, path + '/' + (
                    str(i) if i != 1 or not name else name))
    if isinstance(a, str):
        for x, y in zip(a.split('\n') + ['(end)'], b.split('\n') + ['(end)']):
            if x != y:
                return '%s: line %r against %r' % (path, x, y)
    return '%s: %s against %s' % (path, short(a), short(b))


def short(x):
    r = repr(x)
    return r if len(r) < 260 else r[:130] + ' ... ' + r[-130:]


def digest(tree):
    return hashlib.sha1(repr(tree).encode()).hexdigest()


def h5(path):
    import h5py
    out = []

    def visit(name, o):
        attrs = sorted((k, observe(o.attrs[k])) for k in o.attrs)
        val = observe(o[()]) if isinstance(o, h5py.Dataset) else None
        out.append((name, attrs, val))
    with h5py.File(path, 'r') as f:
        out.append(('/', sorted((k, observe(f.attrs[k])) for k in f.attrs)))
        f.visititems(visit)
    return out


def files(skip=()):
    """Everything in the directory, result files by content."""
    out = []
    for name, data in sorted(cli.snapshot('.').items()):
        if name in skip:
            continue
        if name.endswith('.hdf5'):
            try:
                out.append((name, h5(name)))
            except Exception as e:
                out.append((name, type(e).__name__))
        else:
            try:
                out.append((name, text(data.decode('utf8'))))
            except UnicodeDecodeError:
                out.append((name, data))
    return out


def attempt(fn, *args, **kw):
    """Result or exception, with what was printed."""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            v = fn(*args, **kw)
    except Exception as e:
        v = e
    return v, text(buf.getvalue())


class Kept:
    """A live object and what it showed."""

    def __init__(self, label, obj, look=observe):
        self.label, self.obj, self.look = label, obj, look
        self.seen = look(obj)

    def again(self):
        return self.look(self.obj)


# -- operations -------------------------------------------------------------
# op(rng) works in the current directory; returns (tree, [Kept])
def _damage(rng, path):
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    k = int(rng.integers(4))
    if k == 0:
        lines = lines[:int(rng.integers(0, len(lines)))]
    elif k == 1:
        del lines[int(rng.integers(len(lines)))]
    elif k == 2:
        i = int(rng.integers(len(lines)))
        lines[i] = lines[i].replace(' ', ' abc ', 1)
    else:
        lines = lines[:2] + lines[-2:]
    with open(path, 'w', encoding='utf8') as f:
        f.write('\n'.join(lines))


def _reader(rng, cls, path, bad):
    if bad:
        _damage(rng, path)
    r, out = attempt(cls, path)
    if isinstance(r, Exception):
        return ('raises', type(r).__name__, out), []
    k = Kept(cls.__name__, r)
    if not bad and rng.random() < 0.5 and hasattr(r, 'load'):
        # reading the same file again with the same object
        attempt(r.load, path)
        again = observe(r)
        return (k.seen, out, ('reload', again)), [Kept(cls.__name__, r)]
    return (k.seen, out), [k]


def read_qha(rng, bad=False):
    from quantas.IO.qha_reader import QHAInputFileReader
    u = gen.units(rng)
    d = gen.ha_case(rng, u, nv=int(gen.pick(rng, (1, 3, 5))), nat=1,
                    nq=int(gen.pick(rng, (1, 2))))
    if rng.random() < 0.7:
        d['job'] = runs.quote(gen.pick(rng, runs.TITLES))
    gen.write_qha('in.yaml', d)
    return _reader(rng, QHAInputFileReader, 'in.yaml', bad)


def read_soec(rng, bad=False):
    from quantas.IO.soec_reader import SOECInputFileReader
    C = el.tensor(rng, gen.pick(rng, el.CLASSES))[0]
    el.write('in.dat', C, float(rng.uniform(900, 9000)) if rng.random() < 0.5
             else None, gen.pick(rng, ('full', 'upper', 'lower')),
             'crystal %d' % rng.integers(100))
    return _reader(rng, SOECInputFileReader, 'in.dat', bad)


def eos_table(rng, path='in.dat', sigma=None):
    n = int(rng.integers(6, 12))
    name = gen.pick(rng, ('Murnaghan', 'BirchMurnaghan', 'Vinet'))
    K, Kp, V0 = rng.uniform(40, 300), rng.uniform(3, 6), rng.uniform(20, 300)
    V = V0 * np.linspace(1.0, 0.88, n)
    P = eosref.pressure(name, K, Kp, -0.02, V0, V) + rng.normal(
        size=n) * 1e-3
    sigma = rng.random() < 0.4 if sigma is None else sigma
    cols = ['P', 'V'] + (['sigV', 'sigP'] if sigma else [])
    data = [P, V] + ([np.full(n, 0.01), np.full(n, 0.02)] if sigma else [])
    axes = rng.random() < 0.4
    if axes:
        cols += ['a', 'b', 'c']
        a = V**(1 / 3.)
        data += [a, a * 1.1, a * 0.9]
    with open(path, 'w') as f:
        f.write('JOB\n%s\nFORMAT\n%s\nDATA\n' % (
            gen.pick(rng, ('quartz', 'MgO run', 'x')), ' '.join(cols)))
        for row in zip(*data):
            f.write(' '.join('%.8f' % x for x in row) + '\n')
    return name, V, P


def read_eos(rng, bad=False):
    from quantas.IO.eos_reader import EoSInputFileReader
    eos_table(rng)
    return _reader(rng, EoSInputFileReader, 'in.dat', bad)


def c24():
    from checks import c24 as m
    return m


def _crystal(rng, path, kind=None, b=None, k=0):
    m = c24()
    b = b or m.base(rng, kind or gen.pick(rng, m.KINDS), nat=1)
    abinitio.crystal_phonon(path, rng, m.image(rng, b, k))
    return b


def read_crystal(rng, bad=False):
    from quantas.interfaces.crystal import CrystalPhononReader
    _crystal(rng, 'a.out')
    return _reader(rng, CrystalPhononReader, 'a.out', bad)


def crystal_qha_file(rng, path):
    nv, nat = int(rng.integers(4, 7)), int(rng.integers(1, 3))
    det = int(rng.integers(1, 4))
    dim = gen.supercell(rng, det)
    z, pos = abinitio.atoms(rng, nat * det)
    v0 = rng.uniform(10, 150)
    lats = np.array([abinitio.lattice(rng, v0 * det * (0.9 + 0.03 * k))
                     for k in range(nv)])
    f0 = np.sort(rng.uniform(20, 1500, 3 * nat * det))
    abinitio.crystal_qha(path, rng, {
        'z': z, 'pos': pos, 'lattices': lats, 'dim': dim,
        'energies': -np.abs(10**rng.uniform(1, 3.5) * (
            1 + 1e-4 * rng.random(nv))),
        'freq': np.round(f0[:, None] * (1 + 0.1 * rng.standard_normal(
            (len(f0), nv))), 4),
        'order': rng.permutation(nv), 'print_dim': rng.random() < 0.3})


def read_crystal_qha(rng, bad=False):
    from quantas.interfaces.crystal import CrystalQHAReader
    crystal_qha_file(rng, 'a.out')
    return _reader(rng, CrystalQHAReader, 'a.out', bad)


def read_crystal_soec(rng, bad=False):
    from quantas.interfaces.crystal import CrystalSOECReader
    C = np.round(el.tensor(rng, gen.pick(rng, el.CLASSES))[0], 3)
    abinitio.crystal_soec('a.out', rng, C, float(np.round(
        rng.uniform(1, 9), 3)))
    return _reader(rng, CrystalSOECReader, 'a.out', bad)


def read_vasp(rng, bad=False):
    from quantas.interfaces.vasp import VASPSOECReader
    C = np.round(el.tensor(rng, gen.pick(rng, el.CLASSES))[0], 5)
    abinitio.outcar('a.out', rng, C, total=rng.random() < 0.6)
    return _reader(rng, VASPSOECReader, 'a.out', bad)


def read_phonopy(rng, bad=False):
    from quantas.interfaces.phonopy import PhonopyReader
    m = c24()
    b = m.phonopy_case(rng, nat=int(rng.integers(1, 3)),
                       nq=int(rng.integers(1, 3)))
    abinitio.phonopy('a', rng, m.phonopy_image(rng, b, 0),
                     rng.random() < 0.8)
    return _reader(rng, PhonopyReader, 'a.yaml', bad)


def _bad(fn):
    def op(rng):
        return fn(rng, bad=True)
    op.__name__ = fn.__name__ + '_bad'
    return op


def missing(rng):
    """Files that do not exist, or are directories."""
    from quantas.IO import eos_reader, qha_reader, soec_reader
    from quantas.interfaces import crystal, phonopy, vasp
    os.makedirs('dir', exist_ok=True)
    out = []
    for cls in (eos_reader.EoSInputFileReader, qha_reader.QHAInputFileReader,
                soec_reader.SOECInputFileReader, crystal.CrystalPhononReader,
                crystal.CrystalQHAReader, crystal.CrystalSOECReader,
                phonopy.PhonopyReader, vasp.VASPSOECReader):
        v, t = attempt(cls, gen.pick(rng, ('nothing', 'dir')))
        out.append((observe(v), t))
    return out, []


def create_qha(rng, bad=False):
    """QHAInputCreator through its methods, twice."""
    from quantas.IO.qha_writer import QHAInputCreator
    m = c24()
    how = int(rng.integers(3))
    n = int(rng.integers(1, 4))
    if how == 0:
        b = m.base(rng, gen.pick(rng, ('gamma', 'dispersion')), nat=1)
        names = ['f%d.out' % k for k in range(n)]
        for k in range(n):
            _crystal(rng, names[k], b=b, k=k)
        iface = 'crystal'
    elif how == 1:
        b = m.phonopy_case(rng, nat=1, nq=int(rng.integers(1, 3)))
        names = ['f%d.yaml' % k for k in range(n)]
        for k in range(n):
            abinitio.phonopy('f%d' % k, rng, m.phonopy_image(rng, b, k))
        iface = 'phonopy'
    else:
        crystal_qha_file(rng, 'f0.out')
        names, iface = ['f0.out'], 'crystal-qha'
    if bad and how != 2:
        names.append('absent')
    elif bad:
        _damage(rng, 'f0.out')
    is_list = how != 2 and (len(names) > 1 or rng.random() < 0.5)
    target = names[0]
    if is_list:
        target = 'files'
        with open('files', 'w') as f:
            f.write('\n'.join(names))
    ref = int(rng.integers(n)) if how != 2 else 0
    c = QHAInputCreator(iface)
    trees = []
    for _ in range(2):
        v, t = attempt(c.read, target, is_list, ref)
        w, t2 = (None, '')
        if getattr(c, 'completed', False) and not isinstance(v, Exception):
            w, t2 = attempt(c.write, 'out.yaml', ref)
        trees.append((observe(v), t, observe(w), t2, observe(c), files()))
    return trees, [Kept('QHAInputCreator', c)]


def create_soec(rng, bad=False):
    from quantas.IO.soec_writer import SOECInputCreator
    C = np.round(el.tensor(rng, gen.pick(rng, el.CLASSES))[0], 3)
    if rng.random() < 0.5:
        abinitio.crystal_soec('a.out', rng, C, 3.25)
        iface = 'crystal'
    else:
        abinitio.outcar('a.out', rng, C)
        iface = 'vasp'
    if bad:
        _damage(rng, 'a.out')
    c = SOECInputCreator(iface)
    trees = []
    for _ in range(2):
        v, t = attempt(c.read, 'a.out')
        w, t2 = (None, '')
        if getattr(c, 'completed', False) and not isinstance(v, Exception):
            w, t2 = attempt(c.write, 'out.dat', 'some title')
        trees.append((observe(v), t, observe(w), t2, observe(c), files()))
    return trees, [Kept('SOECInputCreator', c)]


def _calculator(rng, r, cls, settings, bad=False):
    if bad:
        _damage(rng, r.name)
    mine = dict(settings)
    c, t = attempt(cls, mine)
    tree = [observe(c) if isinstance(c, Exception) else t]
    if isinstance(c, Exception):
        return tree, []
    err, t = attempt(c.read_input, r.name)
    tree += [observe(err), t]
    if err is None:
        for _ in range(2 if rng.random() < 0.3 else 1):
            v, t = attempt(c.run)
            tree += [observe(v), t, observe(c)]
        if c.completed and rng.random() < 0.5 and hasattr(c, 'export_hdf5'):
            v, t = attempt(c.export_hdf5, 'res.hdf5')
            tree += [observe(v), t]
    tree += [observe(mine), files()]
    return tree, [Kept(cls.__name__, c)]


def calc_ha(rng, bad=False):
    from quantas.harmonic.harmonic import HACalculator
    r = runs.ha(rng, '.', tmax=8)
    return _calculator(rng, r, HACalculator, r.settings, bad)


def calc_qha(rng, bad=False):
    from quantas.qha.qha import QHACalculator
    r = runs.qha(rng, '.', many=False)
    return _calculator(rng, r, QHACalculator, r.settings, bad)


def calc_soec(rng, bad=False):
    from quantas.soec.soec import SOECCalculator
    r = runs.soec(rng, '.', polar=False, cls=gen.pick(rng, el.CLASSES))
    if bad and rng.random() < 0.5:
        el.write(r.name, -r.C)
        bad = False
    return _calculator(rng, r, SOECCalculator, el.settings(False), bad)


def fit_pv(rng):
    """Pressure-volume fits, repeated with the same object."""
    from quantas.eosfit.utils import pv_eos
    name, V, P = eos_table(rng)
    e = getattr(pv_eos, gen.pick(rng, (
        'Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait')))()
    kw = [{'order': int(rng.integers(2, 5)), 'linear': False},
          {'order': int(rng.integers(2, 5)), 'linear': rng.random() < 0.5}]
    if rng.random() < 0.4:
        kw[0]['sigmaV'] = np.full(len(V), 0.01)
    if rng.random() < 0.3:
        kw[1]['guess'] = [100., 4., -0.03, float(V[0])]
    if rng.random() < 0.3:
        kw[1]['fixed'] = [1, 0, 0, 1]
    tree = []
    for k in (0, 1, 0):
        v, t = attempt(e.fit, V, P, **kw[k])
        if not isinstance(v, Exception):
            p = np.array(v.beta)
            q, _ = attempt(e.eos, p, V, order=kw[k]['order'],
                           linear=kw[k]['linear'])
            v = [observe(np.array(v.beta)), observe(np.array(v.sd_beta)),
                 observe(q)]
        else:
            v = observe(v)
        tree.append((v, t))
    if tree[0] != tree[2]:
        tree.append('repeating the fit gave something else')
    return tree, [Kept(type(e).__name__, e)]


def fit_ev(rng):
    from quantas.qha.utils.ev_eos import EnergyEOS
    V = np.linspace(0.9, 1.1, 9) * rng.uniform(20, 200)
    tree = []
    e = EnergyEOS()
    for tag in ('birchmurnaghan', gen.pick(rng, qmodel.EOS), 'nonsense',
                'birchmurnaghan'):
        E = eosref.energy('birchmurnaghan', V, -5., 1.0, 4.2, V[4] * 1.01) \
            if not tree else E
        v, t = attempt(e.fit, tag, V, E)
        p = None
        if not isinstance(v, Exception):
            p, _ = attempt(e.pressure, tag, v[0], V)
        tree.append((observe(v), observe(p), t))
    if tree[0] != tree[3]:
        tree.append('repeating the fit gave something else')
    return tree, [Kept('EnergyEOS', e)]


def objects_soec(rng):
    """SOEC and Seismic objects, queried in some order."""
    from quantas.seismic.utils.seismic_obj import Seismic
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    C = np.ascontiguousarray(el.tensor(rng, gen.pick(
        rng, ('orthorhombic', 'cubic', 'triclinic')))[0])
    rho = float(rng.uniform(900, 9000))
    s, _ = attempt(SOEC, C.copy(), rho)
    q, _ = attempt(Seismic, C.copy(), rho)
    o = attempt(SOECOrtho, s)[0]
    tree, kept = [], []
    for _ in range(2):
        th, ph = rng.uniform(0.1, 3), rng.uniform(0, 6)
        row = []
        for obj in (s, o):
            if isinstance(obj, Exception):
                row.append(observe(obj))
                continue
            for f, a in (('young_modulus', [th, ph]),
                         ('linear_compressibility', [th, ph]),
                         ('shear_modulus', [th, ph, 0.7]),
                         ('poisson_ratio', [th, ph, 0.7]),
                         ('phase_velocity', [th, ph])):
                row.append(observe(attempt(getattr(obj, f), a)[0]))
        if not isinstance(q, Exception):
            attempt(q.spherical_direction, th, ph)
            for f in ('phase_velocity', 'eigenvec', 'group_velocity',
                      'powerflow_angle', 'group_abs'):
                row.append(observe(attempt(lambda: getattr(q, f))[0]))
            row.append(observe(q.isotropic_velocity))
        tree.append(row)
    for obj in (s, o):
        if not isinstance(obj, Exception):
            kept.append(Kept(type(obj).__name__, obj, lambda x: observe(
                [x.averages, x.stiffness, x.compliance])))
    if not isinstance(q, Exception):
        kept.append(Kept('Seismic', q, lambda x: observe(
            [x.stiffness, x.phase_velocity, x.group_velocity])))
    return tree, kept


def units(rng):
    from quantas.utils.physics import units as U
    tree = []
    for _ in range(3):
        x = rng.uniform(1, 100, 3)
        for f, pairs in (
                ('convert_pressure', ('GPa', 'kbar', 'Pa')),
                ('convert_energy', ('eV', 'Ha', 'Ry')),
                ('convert_temperature', ('C', 'K')),
                ('convert_frequency', ('THz', 'cm^-1', 'Hz')),
                ('convert_lenght', ('A', 'bohr')),
                ('convert_volume', ('A', 'bohr'))):
            a, b = gen.pick(rng, pairs), gen.pick(rng, pairs)
            fn = getattr(U, f)
            tree.append(observe(attempt(fn, x, a, b)[0]))
            tree.append(observe(attempt(fn, float(x[0]), b, a)[0]))
            tree.append(observe(attempt(fn, x, a, 'nonsense')[0]))
        tree.append(observe(x))
    return tree, []


def polynomials(rng):
    from quantas.utils.math import polynomials as M
    X = np.linspace(-1, 1, 6) + rng.normal()
    tree = []
    for shape in ((6,), (3, 6)):
        Y = rng.normal(size=shape)
        p = M.polyfit(X, Y, 3)
        p = np.ascontiguousarray(p)
        tree += [observe(p), observe(M.interpolate(X, p)),
                 observe(M.R_squared(X, Y, p))]
    tree.append(observe(M.find_polynomial_minimum(
        np.array([1., 0., 1., 0.1]), 0.3)))
    return tree, []


def kieffer(rng):
    from quantas.qha.utils.kieffer import Kieffer
    k = Kieffer(rng.uniform(1e12, 1e13, 3))
    return [[observe(f(T)) for f in (k.helmholtz, k.entropy,
                                     k.heat_capacity)]
            for T in (10., 300.)], [Kept('Kieffer', k)]


def answers(rng):
    """A session of fits in which most questions get the default answer."""
    a = []
    for k in range(int(rng.integers(1, 4))):
        a += ['v'] if k == 0 else []
        a += [gen.pick(rng, ('', '', '1', '2', '3', '4', '5', 'x')),
              gen.pick(rng, ('', '', '2', '3', '4'))]
        a += [gen.pick(rng, ('', '', 'n', 'y')) for _ in range(
            int(rng.integers(0, 8)))]
        a += [''] * 4 + ['y', 'n']
    return '\n'.join(a + ['n'] * 8) + '\n'


def command(rng, bad=False, kind=None):
    """A command line of any kind in this directory, possibly repeated."""
    from checks import c27
    ctx = Ctx('quick', 0, '.')
    kind = kind or gen.pick(rng, ('ha', 'eosfit', 'export-ha', 'usage'))
    if kind == 'eosfit':
        eos_table(rng)
        args, pre, post = ['eosfit', 'in.dat'], '', answers(rng)
    elif kind == 'usage':
        args = gen.pick(rng, (
            ['qha', '--help'], ['nothing'], ['ha', 'absent'],
            ['qha', 'absent', '-s', 'zz'], ['inpgen', 'ha', 'absent', '-l'],
            ['export', 'ha', 'absent'], ['soec', 'absent']))
        pre = post = ''
    else:
        j = c27.job(ctx, rng, '.', kind)
        args, pre, post = j.args, j.pre, j.post
    if bad:
        names = [n for n in os.listdir('.') if n.endswith(
            ('.yaml', '.dat', '.out')) and os.path.isfile(n)]
        if names:
            try:
                _damage(rng, gen.pick(rng, sorted(names)))
            except UnicodeDecodeError:
                pass
    tree = []
    for k in range(1 + int(rng.integers(2))):
        stdin = pre + ('' if k == 0 else 'y\n') + post
        o = cli.run(args, stdin)
        tree.append((o.code, observe(o.exc) if o.crash else None,
                     text(o.text), files()))
    return [kind, tree], []


OPS = {}
for _f in (read_qha, read_soec, read_eos, read_crystal, read_crystal_qha,
           read_crystal_soec, read_vasp, read_phonopy, create_qha,
           create_soec, calc_ha, calc_qha, calc_soec, command):
    OPS[_f.__name__] = _f
    _b = _bad(_f)
    OPS[_b.__name__] = _b


def _of_kind(kind):
    def op(rng):
        return command(rng, rng.random() < 0.15, kind)
    op.__name__ = 'command_' + kind.replace('-', '_')
    return op


for _k in ('ha', 'qha', 'soec', 'inpgen-ha', 'inpgen-soec', 'export-ha',
           'export-qha', 'export-soec', 'eosfit', 'usage'):
    _b = _of_kind(_k)
    OPS[_b.__name__] = _b
for _f in (missing, fit_pv, fit_ev, objects_soec, units, polynomials,
           kieffer):
    OPS[_f.__name__] = _f


def vandal(kept, rng):
    """Overwrite, in place, the arrays the object hands out."""
    o, n = kept.obj, 0

    def spoil(v, depth=0):
        if isinstance(v, np.ndarray) and v.flags.writeable and \
                v.dtype.kind in 'fiu':
            v[...] = 77
            return 1
        if isinstance(v, dict) and depth < 4:
            return sum(spoil(x, depth + 1) for x in v.values())
        if isinstance(v, (list, tuple)) and depth < 4:
            return sum(spoil(x, depth + 1) for x in v)
        return 0
    constants = set()
    for c in type(o).__mro__:
        constants.update(k for k, v in vars(c).items()
                         if isinstance(v, np.ndarray))
    for name in sorted(dir(o)):
        if name.startswith('_') or name in constants:
            continue
        try:
            v = getattr(o, name)
        except Exception:
            continue
        n += spoil(v)
    return n


def perform(name, seed, d):
    """Run one operation in directory d."""
    old = os.getcwd()
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        return OPS[name](np.random.default_rng(seed))
    finally:
        os.chdir(old)
