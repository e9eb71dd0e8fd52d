"""C16: extremes bound every direction and are attained where reported."""
import os
import re

import numpy as np

from vlib import cli, elastic as el
from vlib.core import Group

PROPERTY = 'C16'
RULE = ('random positive definite tensors of nine Laue classes, isotropic '
        'ones and rotated copies, from nearly isotropic to extreme '
        'anisotropy (negative Poisson ratios and compressibilities '
        'included); reported extremes against an independent global search '
        '(6000 directions with the exact extreme over the second vector, six '
        'polished) and against thousands of random directions; properties '
        'recomputed along the reported axes; non-trivial = distinct (class, '
        'route, anisotropy decade)')
MIN = {'distinct': 25, 'tensors': 30, 'extremes': 240, 'directions': 100000,
       'axes': 240, 'reports': 16}
ASSUMPTIONS = ['search accuracy: 1e-5 of the largest magnitude, a thousand '
               'times the error measured on correct code',
               'report values carry four decimals']

NAMES = ('E', 'LC', 'G', 'Nu')


def make(rng, i):
    if i % 12 == 11:
        from checks.c14 import isotropic
        return isotropic(rng), 'isotropic'
    if i % 12 == 7:
        # hardly any lateral coupling: tiny positive Poisson ratios
        a = rng.uniform(50, 500)
        C = np.zeros((6, 6))
        C[:3, :3] = a * 10**rng.uniform(-4, -1.7)
        np.fill_diagonal(C, a)
        C[3:, 3:] = np.eye(3) * (C[0, 0] - C[0, 1]) / 2
        s = 0.1 * C[0, 1]
        C += np.diag(rng.uniform(-s, s, 6))
        return C, 'uncoupled'
    C, cls = el.tensor(rng, el.CLASSES[i % 9], cond=5e-3)
    if i % 4 == 3:
        return el.rotate(C, el.rotation(rng)), cls + '+rotated'
    return C, cls


def at(S4, name, n, m):
    if name == 'E':
        return el.young(S4, n)
    if name == 'LC':
        return el.lincomp(S4, n)
    return (el.shear if name == 'G' else el.poisson)(S4, n, m)


def verify(ctx, C, cls, var, digits=None):
    """var: per property [(min,max), anisotropy, ax1 min, ax1 max, ax2...]"""
    S4 = el.s4(np.linalg.inv(C))
    g = el.sphere(3000)
    rnd = np.random.default_rng(len(cls)).standard_normal((3000, 3))
    dirs = np.concatenate([g, rnd / np.linalg.norm(
        rnd, axis=1)[:, None]])
    for name, v in zip(NAMES, var):
        (lo, hi), anis = v[0], v[1]
        if name == 'E':
            a = b = el.young(S4, dirs)
        elif name == 'LC':
            a = b = el.lincomp(S4, dirs)
        else:
            a, b = (el.shear_range if name == 'G' else
                    el.poisson_range)(S4, dirs)
        scale = max(abs(a.min()), abs(b.max()))
        tol = 1e-5 * scale
        rep = tol if digits is None else tol + 0.6 * 10.0**-digits
        ctx.count('directions', a.size)
        ctx.expect(lo <= a.min() + rep, 'bound:min:' + name,
                   'a direction has a value below the reported minimum',
                   reported=lo, found=a.min(), direction=dirs[a.argmin()],
                   cls=cls)
        ctx.expect(hi >= b.max() - rep, 'bound:max:' + name,
                   'a direction has a value above the reported maximum',
                   reported=hi, found=b.max(), direction=dirs[b.argmax()],
                   cls=cls)
        (emin, _), (emax, _) = el.extreme(S4, name, polish=3)
        ctx.close(lo, emin, 'extreme:min:' + name, 0, rep, cls)
        ctx.close(hi, emax, 'extreme:max:' + name, 0, rep, cls)
        ctx.count('extremes', 2)
        for k, ext in ((0, lo), (1, hi)):
            n = np.asarray(v[2 + k], float)
            m = None if v[4 + k] is None else np.asarray(v[4 + k], float)
            slack = 1e-9 if digits is None else 2e-4
            ctx.close(np.linalg.norm(n), 1, 'axis:unit:' + name, 0, slack)
            if name in ('G', 'Nu'):
                ctx.expect(m is not None, 'axis:second:' + name)
                ctx.close(np.linalg.norm(m), 1, 'axis:unit:' + name, 0,
                          slack)
                ctx.close(n @ m, 0, 'axis:normal:' + name, 0, slack)
            if digits is None:
                ctx.close(at(S4, name, n, m), ext, 'attained:' + name, 0,
                          1e-7 * scale, '%s: value along the reported axes'
                          % cls)
            else:
                # four-digit axes: first order sensitivity vanishes at an
                # extreme, second order grows with the anisotropy
                n = n / np.linalg.norm(n)
                if m is not None:
                    m = m - (m @ n) * n
                    m /= np.linalg.norm(m)
                ctx.close(at(S4, name, n, m), ext, 'attained:' + name, 0,
                          2e-3 * scale + rep, '%s: value along the '
                          'reported axes' % cls)
            ctx.count('axes')
        if abs(lo) > 2 * rep or digits is None:
            if lo > 0:
                ctx.close(anis, hi / lo, 'anisotropy:' + name, 1e-9
                          if digits is None else
                          2 * (rep / lo + rep / hi) + 1e-4 * lo / hi)
            else:
                ctx.expect(np.isinf(anis) or np.isnan(anis),
                           'anisotropy:' + name, 'minimum %r, anisotropy %r'
                           % (lo, anis))
    au = el.averages(C)
    au = 5 * au['V'][2] / au['R'][2] + au['V'][0] / au['R'][0] - 6
    ctx.nontrivial(cls, int(np.floor(2 * np.log10(max(au, 1e-6)))))
    ctx.count('tensors')


def case_object(ctx, rng, i):
    C, cls = make(rng, i)
    ctx.describe(cls=cls, C=C)
    calc = el.prepare(ctx, C)
    verify(ctx, C, cls, calc.single_vector_variation() +
           calc.dual_vector_variation())


def case_waves(ctx, rng, i):
    """Velocity extremes reported with a density."""
    C, cls = el.tensor(rng, 'orthorhombic', spread=rng.uniform(0.05, 0.4))
    rho = rng.uniform(1000, 9000)
    ctx.describe(cls=cls, C=C, density=rho)
    calc = el.prepare(ctx, C, rho)
    vel = el.velocities(C, rho, el.sphere(6000))
    for v, k, name in zip(calc.phase_velocity_variation(), (2, 0, 1),
                          ('Vp', 'Vs1', 'Vs2')):
        (lo, hi) = v[0]
        ctx.expect(lo <= vel[:, k].min() + 2e-3 * lo, 'waves:' + name,
                   'slower direction', reported=lo, found=vel[:, k].min())
        ctx.expect(hi >= vel[:, k].max() - 2e-3 * hi, 'waves:' + name,
                   'faster direction', reported=hi, found=vel[:, k].max())
        for ax, want in ((v[2], lo), (v[3], hi)):
            got = el.velocities(C, rho, np.asarray(ax, float))[k]
            ctx.close(got, want, 'waves:attained:' + name, 1e-7)
        ctx.close(v[1], hi / lo, 'waves:anisotropy', 1e-9)
        ctx.count('axes', 2)


NUM = r'(-?(?:\d+\.\d+|inf|nan))'


def parse(text):
    """The two tables of the printed report."""
    out = {}
    blocks = [('E', 'LC', 'E_min'), ('G', 'Nu', 'G_min')]
    for a, b, mark in blocks:
        t = text[text.index(mark):]
        rows = []
        for line in t.splitlines():
            if '|' in line and re.search(r'\d', line.split('|', 1)[1]) and \
                    'min' not in line:
                rows.append([float(x) for x in re.findall(NUM, line)])
            if len(rows) == (5 if a == 'E' else 8):
                break
        for k, name in ((0, a), (1, b)):
            lo, hi = rows[0][2 * k:2 * k + 2]
            ax = [[r[2 * k + c] for r in rows[2:5]] for c in (0, 1)]
            sec = [None, None] if a == 'E' else \
                [[r[2 * k + c] for r in rows[5:8]] for c in (0, 1)]
            out[name] = [(lo, hi), rows[1][k]] + ax + sec
    return [out[n] for n in NAMES]


def case_cli(ctx, rng, i):
    """As printed in the report."""
    wd = cli.fresh(ctx)
    C, cls = el.tensor(rng, 'orthorhombic' if i % 4 else None, cond=2e-2,
                       scale=10**rng.uniform(1.3, 2.5))
    ctx.describe(cls=cls, C=C)
    el.write(os.path.join(wd, 'x.dat'), C, 3000. if i % 3 == 0 else None)
    o = cli.must(ctx, ['soec', 'x.dat'], cwd=wd)
    verify(ctx, C, cls + '+report', parse(o.text), 4)
    ctx.count('reports')


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('object', 32 * k, case_object),
            Group('waves', 16 * k, case_waves),
            Group('cli', 24 * k, case_cli)]
