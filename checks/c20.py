"""C20: polar sections hold the properties along each direction."""
import os

import h5py
import numpy as np

from vlib import cli, elastic as el
from vlib.core import Group

PROPERTY = 'C20'
RULE = ('random positive definite tensors of nine Laue classes and rotated '
        'copies (auxetic ones and negative compressibilities included), with '
        'and without density, through the calculator and the soec command; '
        'every row of every plane against exact extremes over the second '
        'vector and independent velocities; antipodal rows; result file and '
        'exported tables against the computed sections; non-trivial = '
        'distinct (class, density, signs met, entry)')
MIN = {'distinct': 25, 'sections': 300, 'rows': 80000, 'antipodal': 100,
       'files': 12, 'exports': 40}
ASSUMPTIONS = ['tables have 360 rows from 0 to 360 degrees; columns: E; '
               'positive and negative part of the linear compressibility; '
               'minimum and maximum shear modulus; negative and positive '
               'part of the minimum Poisson ratio, and its maximum; vs1, '
               'vs2, vp']

PLANES = (('xy', lambda a: el.direction(np.pi / 2 + 0 * a, a)),
          ('xz', lambda a: el.direction(a, 0 * a)),
          ('yz', lambda a: el.direction(a, np.pi / 2 + 0 * a)))


def expected(C, rho, n):
    S4 = el.s4(np.linalg.inv(C))
    lc = el.lincomp(S4, n)
    nl, nh = el.poisson_range(S4, n)
    gl, gh = el.shear_range(S4, n)
    out = {'E': el.young(S4, n)[:, None],
           'LC': np.column_stack((np.maximum(0, lc), np.maximum(0, -lc))),
           'G': np.column_stack((gl, gh)),
           'Nu': np.column_stack((np.minimum(0, nl), np.maximum(0, nl), nh))}
    if rho:
        out['waves'] = el.velocities(C, rho, n)
    return out


def sections(ctx, C, rho, polar, key, nrad=360, decimals=None):
    wmin = np.linalg.eigvalsh(C)[0]
    smax = np.abs(el.s4(np.linalg.inv(C))).max()
    tol = 1e-12 * np.linalg.cond(C)
    q = 0.0 if decimals is None else 0.51 * 10.0**-decimals
    signs = set()
    ctx.same(sorted(polar), ['xy', 'xz', 'yz'], key + ':planes')
    for plane, f in PLANES:
        names = ['E', 'LC', 'G', 'Nu'] + (['waves'] if rho else [])
        ctx.same(sorted(polar[plane]), sorted(names), key + ':tables',
                 'tables of plane ' + plane)
        deg = np.linspace(0, 360, nrad)
        want = expected(C, rho, f(np.radians(deg)))
        for name in names:
            t = np.asarray(polar[plane][name], float)
            w = want[name]
            ctx.expect(t.shape == (nrad, 1 + w.shape[1]), key + ':shape',
                       '%s %s has shape %s' % (plane, name, t.shape))
            ctx.close(t[:, 0], deg, key + ':angles', 0,
                      1e-9 if decimals is None else 0.051)
            scale = np.abs(w)
            if name == 'LC':
                scale = np.full(w.shape, 1000 * smax)
            elif name == 'Nu':
                scale = np.maximum(1, smax * want['E']) * np.ones(w.shape)
            elif name in ('E', 'G'):
                scale = w * np.maximum(1, smax * w)
            elif name == 'waves':
                scale = w[:, 2:]**2 / w
            ctx.close(t[:, 1:], w, '%s:%s' % (key, name), tol + 1e-11, q,
                      '%s of plane %s' % (name, plane), scale=scale)
            ctx.count('rows', nrad)
            ctx.count('sections')
            if name == 'LC' and (w[:, 1] > 0).any():
                signs.add('lc-')
            if name == 'Nu' and (w[:, 0] < 0).any():
                signs.add('nu-')
            if decimals is None and nrad % 2:
                h = nrad // 2
                ctx.close(t[:h + 1, 1:], t[h:, 1:], key + ':antipodal',
                          tol + 1e-11, 0, '%s of plane %s' % (name, plane),
                          scale=scale[:h + 1])
                ctx.count('antipodal')
    return signs


def negative(rng):
    """Crystal of low symmetry which expands along some direction of the
    sections under pressure."""
    a = np.radians(np.arange(0, 360, 7.))
    n = np.concatenate([f(a) for _, f in PLANES])
    while True:
        C, cls = el.tensor(rng, ('monoclinic', 'triclinic')[
            int(rng.integers(2))], spread=rng.uniform(0.8, 1.6), cond=5e-3)
        lc = el.lincomp(el.s4(np.linalg.inv(C)), n)
        if lc.min() < -0.1 * lc.max():
            return C, cls + '+negative'


def make(rng, i, fast=True):
    if i % 4 == 1:
        return negative(rng)
    if fast and i % 3:
        return el.tensor(rng, 'orthorhombic', cond=5e-3)
    C, cls = el.tensor(rng, el.CLASSES[i % 9], cond=5e-3)
    if i % 4 == 0:
        return el.rotate(C, el.rotation(rng)), cls + '+rotated'
    return C, cls


def case_calc(ctx, rng, i):
    C, cls = make(rng, i)
    rho = float(rng.uniform(900, 9000)) if rng.random() < 0.6 else None
    ctx.describe(cls=cls, C=C, density=rho)
    calc = el.prepare(ctx, C, rho)
    nrad = int((360, 37, 73, 181)[i % 4])
    if cls.endswith(('negative', 'rotated')) or cls != 'orthorhombic':
        nrad = min(nrad, 73)
    calc.calculate_polar_properties(nrad) if nrad != 360 else \
        calc.calculate_polar_properties()
    s = sections(ctx, C, rho, calc.results['polar'], 'calc', nrad)
    ctx.nontrivial(cls, bool(rho), sorted(s), nrad)


def table(path):
    """Rows of numbers of an exported table."""
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    rows = []
    for line in lines[3:]:
        try:
            rows.append([float(x) for x in line.split()])
        except ValueError:
            continue
    return lines, np.array([r for r in rows if r])


def case_cli(ctx, rng, i):
    wd = cli.fresh(ctx)
    C, cls = make(rng, i if i % 5 == 0 else 1 + i % 2)
    rho = float(rng.uniform(900, 9000)) if i % 2 else None
    ctx.describe(cls=cls, C=C, density=rho)
    el.write(os.path.join(wd, 'x.dat'), C, rho)
    opts = ['-q'] if i % 4 == 0 else []
    cli.must(ctx, ['soec', 'x.dat', '--polar'] + opts, cwd=wd,
             log=os.path.join(wd, 'x_SOEC.txt'))
    polar = {}
    h5 = os.path.join(wd, 'x_SOEC.hdf5')
    with h5py.File(h5, 'r') as f:
        for k in f:
            if k.startswith('polar_'):
                _, name, plane = k.split('_')
                polar.setdefault(plane, {})[name] = f[k][()]
                unit = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': '',
                        'waves': 'km s^-1'}[name]
                ctx.same(f[k].attrs['unit'], unit, 'file:unit', k)
    s = sections(ctx, C, rho, polar, 'file')
    ctx.count('files')
    with open(h5, 'rb') as f:
        raw = f.read()
    names = ['E', 'LC', 'G', 'Nu'] + (['waves'] if rho else [])
    rng.shuffle(names)
    stdin = '\ny\n'.join(names) + '\nn\n'
    cli.must(ctx, ['export', 'soec', 'x_SOEC.hdf5'], stdin, cwd=wd)
    with open(h5, 'rb') as f:
        ctx.same(f.read(), raw, 'export:source', 'result file changed')
    for name in names:
        lines, t = table(os.path.join(wd, 'x_SOEC_%s.dat' % name))
        full = np.hstack([polar['xy'][name][:, :1]] + [
            polar[p][name][:, 1:] for p in ('xy', 'xz', 'yz')])
        ctx.expect(t.shape == full.shape, 'export:shape', '%s: %s, file %s' %
                   (name, t.shape, full.shape))
        ctx.close(t[:, 0], full[:, 0], 'export:angles', 0, 0.051)
        ctx.close(t[:, 1:], full[:, 1:], 'export:values', 1e-13, 0.51e-4,
                  name)
        head = ' '.join(lines[:4])
        unit = {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'Nu': 'Adimensional',
                'waves': 'km s^-1'}[name]
        desc = {'E': 'Young', 'G': 'Shear', 'LC': 'compressib',
                'Nu': 'Poisson', 'waves': 'velocities'}[name]
        ctx.expect(unit in head and desc in head, 'export:header', head)
        ctx.count('exports')
    ctx.nontrivial('cli', cls, bool(rho), sorted(s))


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('calc', 72 * k, case_calc), Group('cli', 20 * k, case_cli)]
