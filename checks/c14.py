"""C14: averages are tensor invariants, bounded and correctly defined."""
import os

import h5py
import numpy as np

from vlib import cli, elastic as el
from vlib.core import Group

PROPERTY = 'C14'
RULE = ('random positive definite tensors of the nine Laue classes, '
        'isotropic ones and randomly rotated copies (scale 5-600 GPa, '
        'elastic anisotropy from none to extreme), through the soec command, '
        'the calculator and the tensor objects; averages, compliance and '
        'eigenvalues against independent full-tensor definitions, and '
        'against those of a rotated copy; non-trivial = distinct (class, '
        'anisotropy decade, rotated)')
MIN = {'distinct': 40, 'tensors': 250, 'rotations': 200, 'analyses': 12,
       'isotropic': 20, 'files': 8, 'soft': 8}
ASSUMPTIONS = ['eigenvalues are those of the 6x6 stiffness matrix in Voigt '
               'notation, as the report states']
WORKERS = 8

QNAMES = ('K', 'E', 'G', 'nu')


def isotropic(rng):
    lam, mu = rng.uniform(-0.2, 1.5), rng.uniform(0.1, 1)
    lam = max(lam, -0.55 * mu)
    C = np.zeros((6, 6))
    C[:3, :3] = lam
    C[range(3), range(3)] += 2 * mu
    C[range(3, 6), range(3, 6)] = mu
    return C * 10**rng.uniform(0.7, 2.7)


def check(ctx, C, avg, S, eig, tag):
    """One object's averages, compliance and eigenvalues."""
    avg = np.asarray(avg, float).reshape(3, 4)
    want = el.averages(C)
    cond = np.linalg.cond(C)
    tol = 1e-12 * max(cond, 10)
    for i, k in enumerate('VRH'):
        for j, q in enumerate(QNAMES):
            ctx.close(avg[i, j], want[k][j], '%s:%s_%s' % (tag, q, k), tol,
                      tol, '%s %s average' % (k, q))
    V, R, H = avg
    for j, q in ((0, 'K'), (2, 'G'), (1, 'E')):
        ctx.expect(R[j] <= V[j] * (1 + tol), tag + ':bounds',
                   'Reuss %s %r above Voigt %r' % (q, R[j], V[j]))
    for j in (0, 2):
        ctx.close(H[j], (V[j] + R[j]) / 2, tag + ':hill', 1e-13)
    ctx.expect(R[1] * (1 - tol) <= H[1] <= V[1] * (1 + tol), tag + ':bounds',
               'Hill E')
    ctx.close(S @ C, np.eye(6), tag + ':compliance', 0, tol,
              'compliance times stiffness')
    if eig is not None:
        ctx.close(np.sort(eig), np.linalg.eigvalsh(C), tag + ':eigenvalues',
                  0, 1e-11 * np.abs(C).max())
        ctx.expect(np.all(np.diff(eig) >= 0), tag + ':eigenvalues',
                   'not in increasing order')
    ctx.count('tensors')


def mandel(S):
    f = np.array([1, 1, 1, 2**-.5, 2**-.5, 2**-.5])
    return np.linalg.eigvalsh(S * np.outer(f, f))


def make(ctx, rng, i):
    if i % 8 == 7:
        ctx.count('isotropic')
        return isotropic(rng), 'isotropic'
    return el.tensor(rng, el.CLASSES[i % 9])


def note(ctx, C, cls, extra=''):
    a = el.averages(C)
    au = 5 * a['V'][2] / a['R'][2] + a['V'][0] / a['R'][0] - 6
    ctx.nontrivial(cls, extra, int(np.floor(2 * np.log10(max(au, 1e-9)))))
    return au


def soften(ctx, rng, C):
    """The same crystal on the verge of an elastic instability."""
    w, v = np.linalg.eigh(C)
    soft = w[-1] * 10**rng.uniform(-6, -3)
    M = C - (w[0] - soft) * np.outer(v[:, 0], v[:, 0])
    M[C == 0] = 0
    ctx.count('soft')
    return 0.5 * (M + M.T)


def case_object(ctx, rng, i):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    from quantas.seismic.utils.seismic_obj import Seismic
    C, cls = make(ctx, rng, i)
    if cls in ('orthorhombic', 'monoclinic', 'triclinic') and \
            rng.random() < 0.3:
        C = soften(ctx, rng, C)
    rho = rng.uniform(800, 9000)
    R = el.rotation(rng)
    D = el.rotate(C, R)
    ctx.describe(cls=cls, C=C, R=R)
    for M, tag in ((C, ''), (D, 'rotated')):
        keep = M.copy()
        obj = SOEC(M, rho)
        check(ctx, M, obj.averages(), obj.compliance, None, 'avg')
        ctx.same(obj.stiffness, keep, 'avg:stiffness-changed')
        sei = Seismic(M.copy(), rho)
        H = el.averages(M)['H']
        tol = 1e-12 * np.linalg.cond(M)
        ctx.close(sei.bulk_modulus, H[0], 'seismic:K', tol)
        ctx.close(sei.shear_modulus, H[2], 'seismic:G', tol)
        if not tag and cls in ('cubic', 'hexagonal', 'tetragonal_high',
                               'orthorhombic', 'isotropic'):
            check(ctx, M, SOECOrtho(obj).averages(),
                  SOECOrtho(obj).compliance, None, 'ortho')
        note(ctx, M, cls, tag)
    a, b = (np.array(SOEC(M, rho).averages()) for M in (C, D))
    tol = 1e-11 * np.linalg.cond(C)
    ctx.close(b, a, 'rotation', tol, tol, 'averages of the rotated crystal')
    ctx.close(mandel(SOEC(D).compliance), mandel(SOEC(C).compliance),
              'rotation:compliance', 0, tol / np.abs(C).max() * 10 +
              1e-11 * np.abs(np.linalg.inv(C)).max())
    ctx.count('rotations')
    if cls == 'isotropic':
        ctx.close(a[0], a[1], 'isotropic', 1e-11, 1e-11,
                  'Voigt and Reuss differ for an isotropic tensor')


def case_run(ctx, rng, i):
    """Complete analyses of a crystal and of its rotated copy."""
    C, cls = make(ctx, rng, 7 if i % 5 == 4 else i)
    if i % 3 == 0 and cls != 'isotropic':
        C, cls = el.tensor(rng, 'orthorhombic')
    rho = rng.uniform(800, 9000)
    D = el.rotate(C, el.rotation(rng))
    ctx.describe(cls=cls, C=C, D=D, density=rho)
    res = []
    for M, name in ((C, 'a.dat'), (D, 'b.dat')):
        if name == 'a.dat':
            calc = el.analyse(ctx, M, rho, name=name)
            r = calc.results
            check(ctx, M, r['avgs'], calc.soec.compliance, r['eigv'], 'run')
        else:
            calc = el.prepare(ctx, M, rho, name=name)
            r = {'avgs': calc.soec.averages(),
                 'avg_wave_velocities': calc.soec.isotropic_velocities()}
            check(ctx, M, r['avgs'], calc.soec.compliance, None, 'run')
        var = calc.single_vector_variation() + calc.dual_vector_variation()
        res.append((np.array(r['avgs']), np.array(r['avg_wave_velocities']),
                    [(v[0], v[1]) for v in var]))
        ctx.count('analyses')
        note(ctx, M, cls, 'run')
    tol = 1e-11 * np.linalg.cond(C)
    ctx.close(res[1][0], res[0][0], 'rotation', tol, tol)
    ctx.close(res[1][1], res[0][1], 'rotation:velocities', tol)
    for k, (a, b) in enumerate(zip(res[0][2], res[1][2])):
        name = ('E', 'LC', 'G', 'Nu')[k]
        scale = max(abs(a[0][0]), abs(a[0][1]))
        ctx.close(b[0], a[0], 'rotation:%s' % name, 0, 2e-6 * scale,
                  'extremes of the rotated crystal')
        if np.isinf(a[1]) or np.isinf(b[1]):
            ctx.expect(np.isinf(a[1]) and np.isinf(b[1]) or
                       abs(a[0][0]) < 1e-5 * scale, 'rotation:anisotropy')
        elif a[0][0] > 1e-3 * scale:
            ctx.close(b[1], a[1], 'rotation:anisotropy', 1e-5 * scale /
                      a[0][0], 0, 'anisotropy of the rotated crystal')
    if cls == 'isotropic':
        for name, v in zip(('E', 'LC', 'G', 'Nu'), res[0][2] + res[1][2]):
            if name != 'Nu' or v[0][0] > 0.01:
                ctx.close(v[1], 1.0, 'isotropic:anisotropy', 1e-6, 0,
                          'anisotropy of ' + name)
    ctx.count('rotations')


def case_cli(ctx, rng, i):
    wd = cli.fresh(ctx)
    C, cls = el.tensor(rng, 'orthorhombic') if i % 4 else make(ctx, rng, i)
    el.write(os.path.join(wd, 'x.dat'), C,
             rng.uniform(900, 8000) if i % 2 else None,
             form=('full', 'upper', 'lower')[i % 3])
    ctx.describe(cls=cls, C=C)
    cli.must(ctx, ['soec', 'x.dat'], cwd=wd)
    names = [n for n in os.listdir(wd) if n.endswith('.hdf5')]
    ctx.expect(len(names) == 1, 'file', str(names))
    with h5py.File(os.path.join(wd, names[0]), 'r') as f:
        ctx.close(f['stiffness'][()], C, 'file:stiffness', 1e-15)
        check(ctx, C, f['averages'][()], f['compliance'][()],
              f['eigenvals'][()], 'file')
    ctx.count('files')


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('run', 12 * k, case_run), Group('cli', 16 * k, case_cli),
            Group('object', 240 * k, case_object)]
