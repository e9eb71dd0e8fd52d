"""C19: crystal systems are recognised and do not change the properties."""
import os
import re

import numpy as np

from vlib import cli, elastic as el
from vlib.core import Group

PROPERTY = 'C19'
RULE = ('tensors with the exact form of each crystal system in its standard '
        'setting (isotropic included; any sign of the symmetry-lowering '
        'constants; constants down to 5e-3 GPa off a higher symmetry), exact '
        'and with symmetric rounding noise of 1e-6 to 1e-4 GPa or values '
        'rounded to 4-6 decimals, with single broken relations of 5e-3 GPa '
        'or more, through recogniser, calculator and report; every property '
        'of the recognised route against the general tensor object; '
        'non-trivial = distinct (class, noise, sign pattern, entry)')
MIN = {'distinct': 90, 'labels': 500, 'noisy': 200, 'lowered': 80,
       'properties': 100, 'reports': 10}
ASSUMPTIONS = ['the Laue class of trigonal and tetragonal tensors is the '
               'label\'s high/low suffix']

def system(label):
    """The label in lower case."""
    return str(label).lower()


def make(rng, i):
    """(C, class) in the standard setting, distinct from higher classes."""
    if i % 10 == 9:
        from checks.c14 import isotropic
        while True:
            C = isotropic(rng)
            if np.abs(C).max() < 2e3:
                return C, 'isotropic'
    cls = el.CLASSES[i % 10]
    while True:
        C, _ = el.tensor(rng, cls)
        if rng.random() < 0.4:
            C = small(rng, C, cls)
        if C is not None and el.distinct(C, cls, 5e-3) and \
                np.linalg.eigvalsh(C)[0] > 1e-3 * np.abs(C).max():
            return C, cls


def small(rng, C, cls):
    """Make the symmetry-lowering constants small (1e-2 GPa up)."""
    f = 10**rng.uniform(-3, 0)
    D = C.copy()
    off = np.ones((6, 6), bool)
    off[:3, :3] = False
    off[range(6), range(6)] = False
    D[off] *= f
    return D


def noise(rng, C):
    k = int(rng.integers(3))
    if k == 0:
        return C, 'exact'
    if k == 1:
        a = 10**rng.uniform(-6, -4)
        N = rng.uniform(-a, a, (6, 6))
        return C + (N + N.T) / 2, 'noise%d' % int(np.log10(a))
    d = int(rng.integers(4, 7))
    D = np.round(C, d)
    return D, 'rounded%d' % d


def case_label(ctx, rng, i):
    from quantas.soec.utils.symmetry import check_symmetry
    C, cls = make(rng, i)
    want = 'cubic' if cls == 'isotropic' else system(cls)
    ctx.describe(cls=cls, C=C)
    signs = tuple(np.sign(C[:, 3:][np.triu_indices(3)]).astype(int))
    for _ in range(4):
        D, how = noise(rng, C)
        got = check_symmetry(D.copy())
        ctx.expect(system(got) == want, 'label:' + want,
                   '%s tensor (%s) recognised as %s' % (cls, how, got), C=D)
        ctx.count('labels')
        if how != 'exact':
            ctx.count('noisy')
        ctx.nontrivial(cls, how, signs)
    ctx.same(check_symmetry(-(-C)), got if how == 'exact' else
             check_symmetry(C), 'label:repeat')


LOWER = {
    # relations whose violation takes the tensor out of its class
    'cubic': [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2), (3, 3), (4, 4),
              (5, 5)],
    'hexagonal': [(0, 0), (1, 1), (0, 2), (1, 2), (3, 3), (4, 4), (5, 5)],
    'tetragonal_high': [(0, 0), (1, 1), (0, 2), (1, 2), (3, 3), (4, 4)],
    'tetragonal_low': [(0, 0), (1, 1), (0, 2), (1, 2), (3, 3), (4, 4),
                       (0, 5), (1, 5)],
    'trigonal_high': [(0, 0), (1, 1), (0, 2), (1, 2), (3, 3), (4, 4), (5, 5),
                      (0, 3), (1, 3), (4, 5)],
    'trigonal_low': [(0, 0), (1, 1), (0, 2), (1, 2), (3, 3), (4, 4), (5, 5),
                     (0, 3), (1, 3), (4, 5), (0, 4), (1, 4), (3, 5)],
    'orthorhombic': [], 'monoclinic': []}


def belongs(C, cls, tol):
    """Independent membership test by projection on the class form."""
    c = {10 * (i + 1) + j + 1: C[i, j] for i in range(6) for j in range(i, 6)}
    if cls == 'cubic':
        c[44] = C[3, 3]
    F = el.form(cls, c)
    return np.abs(F - C).max() < tol


def case_lower(ctx, rng, i):
    """One relation broken: the class is lost, and no lower class is
    claimed that the tensor does not have."""
    from quantas.soec.utils.symmetry import check_symmetry
    cls = ('cubic', 'hexagonal', 'tetragonal_high', 'tetragonal_low',
           'trigonal_high', 'trigonal_low', 'orthorhombic',
           'monoclinic')[i % 8]
    while True:
        C, _ = el.tensor(rng, cls, scale=10**rng.uniform(1.3, 2.5))
        if el.distinct(C, cls, 0.02):
            break
    D = C.copy()
    d = 10**rng.uniform(-2, 0) * rng.choice([-1, 1])
    zero = [(a, b) for a in range(6) for b in range(a, 6)
            if abs(C[a, b]) < 1e-9]
    opts = LOWER[cls] + zero
    a, b = opts[int(rng.integers(len(opts)))]
    D[a, b] += d
    D[b, a] = D[a, b]
    ctx.describe(cls=cls, at=[a, b], d=d, C=D)
    got = check_symmetry(D)
    # the classes the tensor still has
    has = [c for c in el.CLASSES if belongs(D, c, 3e-3)]
    ctx.expect(got in has or any(system(got) == system(c) for c in has),
               'lowered', '%s with C%d%d off by %g recognised as %s, has %s' %
               (cls, a + 1, b + 1, d, got, has))
    ctx.expect(system(got) == system(has[0]), 'lowered',
               '%s with C%d%d off by %g recognised as %s and not as %s' %
               (cls, a + 1, b + 1, d, got, has[0]))
    ctx.count('lowered')
    ctx.nontrivial('lower', cls, a, b)


def case_property(ctx, rng, i):
    """Recognised route against the general (triclinic) treatment."""
    from quantas.soec.utils.soec_obj import SOEC
    C, cls = make(rng, i if i % 2 else 6)
    D, how = noise(rng, C)
    rho = float(rng.uniform(1000, 8000))
    ctx.describe(cls=cls, how=how, C=D)
    calc = el.prepare(ctx, D, rho)
    gen = SOEC(D.copy(), rho)
    eps = np.abs(D - C).max()
    wmin = np.linalg.eigvalsh(D)[0]
    tol = 20 * eps / wmin + 1e-12 * np.linalg.cond(D)
    o = calc.soec
    ctx.close(o.stiffness, D, 'stiffness', 1e-15)
    ctx.close(np.array(o.averages()), np.array(gen.averages()), 'averages',
              tol, tol)
    ctx.close(o.isotropic_velocities(), gen.isotropic_velocities(),
              'velocities', tol)
    for _ in range(20):
        a = [float(np.arccos(rng.uniform(-1, 1))),
             float(rng.uniform(0, 7)), float(rng.uniform(0, 7))]
        lc = max(abs(float(gen.linear_compressibility(a))),
                 1000 / wmin)
        nu = max(1.0, float(gen.young_modulus(a)) / wmin)
        for name, s in (('young_modulus', None),
                        ('linear_compressibility', lc),
                        ('shear_modulus', None), ('poisson_ratio', nu)):
            w = float(getattr(gen, name)(a))
            ctx.close(float(getattr(o, name)(a)), w, 'property:' + name,
                      tol, 0, cls + ' ' + how,
                      scale=abs(w) * max(1, abs(w) / wmin) if s is None
                      else s)
        ctx.close(np.array(o.phase_velocity(a))**2,
                  np.array(gen.phase_velocity(a))**2, 'property:waves', 0,
                  tol * float(gen.phase_velocity(a)[2])**2)
        for name in ('shear_2d', 'poisson_2d'):
            w = np.array(getattr(gen, name)(a[:2]))
            ctx.close(np.array(getattr(o, name)(a[:2])), w,
                      'property:' + name, tol, 0,
                      scale=np.abs(w) * max(1, np.abs(w).max() / wmin)
                      if name == 'shear_2d' else nu)
    ctx.count('properties')
    ctx.nontrivial('prop', cls, how)


def case_report(ctx, rng, i):
    """The system named in the report of the command."""
    C, cls = make(rng, i)
    if cls not in ('orthorhombic', 'isotropic') and i % 3:
        C, cls = make(rng, 6)
    D, how = noise(rng, C)
    ctx.describe(cls=cls, how=how, C=D)
    wd = cli.fresh(ctx)
    el.write(os.path.join(wd, 'x.dat'), D)
    o = cli.must(ctx, ['soec', 'x.dat'], cwd=wd)
    m = re.search(r'System is (\w+)', o.text)
    want = 'cubic' if cls == 'isotropic' else system(cls)
    ctx.expect(m is not None and system(m.group(1)) == want, 'report',
               '%s tensor (%s) reported as %s' % (cls, how,
                                                  m and m.group(1)))
    ctx.count('reports')


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('report', 16 * k, case_report),
            Group('label', 300 * k, case_label),
            Group('lower', 240 * k, case_lower),
            Group('property', 160 * k, case_property)]
