"""C17: seismic velocities solve the Christoffel equation."""
import os

import numpy as np

from vlib import elastic as el
from vlib.core import Group

PROPERTY = 'C17'
RULE = ('random positive definite tensors of nine Laue classes and rotated '
        'copies with densities 500-20000 kg/m3; random, axial, in-plane and '
        'diagonal directions in random order on one object, set by angles or '
        'by unnormalised vectors; phase velocities of the elastic and the '
        'seismic objects against an independent Christoffel tensor, '
        'polarisations by substitution, group velocities against the '
        'analytic contraction and a finite-difference gradient, ray focusing '
        'against the solid-angle ratio by differences; non-trivial '
        '= distinct (class, direction kind, degenerate or not, setter)')
MIN = {'distinct': 60, 'tensors': 80, 'directions': 800, 'groups': 500,
       'gradients': 400,
       'enhancements': 300, 'scalings': 80, 'early': 1500, 'degenerate': 20, 'runs': 4}
ASSUMPTIONS = ['group velocities are checked where the three phase '
               'velocities are distinct (1e-3); polarisations everywhere']


READ = ('christoffel', 'phase_velocity', 'rel_phase_velocity', 'eigenvec',
        'group_velocity', 'group_abs', 'rel_group_velocity', 'group_dir',
        'group_theta', 'group_phi', 'powerflow_angle', 'enhancement',
        'hessian_eigenval', 'grad_eigenval', 'eigenval')


def directions(rng, n):
    q = np.pi / 4
    for k in range(n):
        kind = ('random', 'axis', 'plane', 'lower', 'wrapped')[k % 5]
        th, ph = np.arccos(rng.uniform(0, 1)), rng.uniform(0, 2 * np.pi)
        if kind == 'axis':
            th, ph = q * rng.integers(0, 5), q * rng.integers(0, 9)
        elif kind == 'plane':
            if rng.random() < 0.5:
                th = np.pi / 2
            else:
                ph = q * rng.integers(0, 9)
        elif kind == 'lower':
            th = np.arccos(rng.uniform(-1, 0))
        elif kind == 'wrapped':
            th, ph = rng.uniform(-7, 7, 2)
        yield kind, float(th), float(ph)
        if rng.random() < 0.15:
            # hardly another direction, or the very same
            d = rng.choice([0., 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3])
            yield kind + '+near', float(th + d * rng.uniform(-1, 1)), \
                float(ph + d * rng.uniform(-1, 1))


def gradient(C, rho, n, k):
    """d omega / d q by central differences."""
    h = 1e-4
    g = np.zeros(3)
    for a in range(3):
        d = np.zeros(3)
        d[a] = h
        g[a] = (8 * (el.velocities(C, rho, n + d)[k] -
                     el.velocities(C, rho, n - d)[k]) -
                (el.velocities(C, rho, n + 2 * d)[k] -
                 el.velocities(C, rho, n - 2 * d)[k])) / (12 * h)
    return g


def gradm(C, rho, n):
    """Derivatives of the Christoffel matrix (a quadratic form), exactly."""
    return np.array([(el.christoffel(C, rho, n + d) -
                      el.christoffel(C, rho, n - d)) / 2
                     for d in np.eye(3)])


def enhancement(C, rho, n, k, h=2e-4):
    """Ratio of the solid angle of directions to that of the rays."""
    a = np.cross(n, np.eye(3)[int(np.argmin(np.abs(n)))])
    a /= np.linalg.norm(a)
    t = (a, np.cross(n, a))
    c4 = el.c4(C)

    def ray(d):
        d = d / np.linalg.norm(d)
        e = np.linalg.eigh(np.einsum('ijkl,j,l->ik', c4, d, d))[1][:, k]
        g = np.einsum('ijkl,i,j,l->k', c4, e, d, e)
        return g / np.linalg.norm(g)
    J = [(8 * (ray(n + h * x) - ray(n - h * x)) -
          (ray(n + 2 * h * x) - ray(n - 2 * h * x))) / (12 * h) for x in t]
    A = 1 / np.linalg.norm(np.cross(*J))
    if A < 0.05 and h == 2e-4:
        # rays that turn fast: smaller steps
        return enhancement(C, rho, n, k, h * max(20 * A, 2e-3))
    return A


def angle(a, b):
    """Difference of two azimuths."""
    return abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def seismic(ctx, obj, C, rho, n, kind, setter, cls):
    vel = el.velocities(C, rho, n)
    G = el.christoffel(C, rho, n)
    lmax = vel[-1]**2
    ctx.close(obj.q, n, 'direction', 0, 1e-14)
    ctx.close(obj.christoffel, G, 'christoffel', 0, 1e-13 * lmax *
              np.abs(C).max() * 1000 / rho / lmax * 10)
    pv = np.array(obj.phase_velocity)
    ctx.close(pv**2, vel**2, 'phase', 0, 1e-12 * lmax, '%s along %s' %
              (cls, n))
    ctx.expect(pv[0] <= pv[1] <= pv[2], 'order', str(pv))
    for x in pv:
        ctx.expect(abs(np.linalg.det(G - x * x * np.eye(3))) <=
                   1e-11 * lmax**3, 'determinant', 'not a solution')
    ev = np.array(obj.eigenvec)
    ctx.close(ev @ ev.T, np.eye(3), 'polarisation:orthonormal', 0, 1e-12)
    for k in range(3):
        ctx.close(G @ ev[k], pv[k]**2 * ev[k], 'polarisation:eigenvector',
                  0, 1e-11 * lmax, 'mode %d' % k)
    ctx.count('directions')
    gap = np.diff(vel)
    degenerate = gap.min() < 1e-3 * vel[-1]
    gv = np.array(obj.group_velocity)
    # contraction with the object's own polarisations holds even when
    # degenerate
    want = np.einsum('ijkl,mi,j,ml->mk', el.c4(C), ev, n, ev) * 1000 / rho \
        / pv[:, None]
    ctx.close(gv, want, 'group', 0, 1e-11 * np.abs(want).max() *
              max(1, vel[-1] / vel[0]), 'group velocity')
    ctx.close(obj.eigenval, pv**2, 'eigenval', 0, 1e-12 * lmax)
    ctx.close(obj.grad_M, gradm(C, rho, n), 'grad_M', 0,
              1e-12 * lmax * np.abs(C).max() * 1000 / rho / lmax * 10)
    ctx.close(obj.grad_eigenval, 2 * pv[:, None] * want, 'grad_eigenval', 0,
              1e-11 * lmax * 10)
    ctx.close(gv @ n, pv, 'group:projection', 1e-10, 0,
              'projection on the direction')
    ab = np.linalg.norm(want, axis=1)
    ctx.close(obj.group_abs, ab, 'group:abs', 1e-10)
    gd = want / ab[:, None]
    ctx.close(obj.group_dir, gd, 'group:dir', 0, 1e-10)
    ctx.close(obj.group_theta, np.arccos(np.clip(gd[:, 2], -1, 1)),
              'group:theta', 0, 3e-7)
    for k in range(3):
        if np.hypot(gd[k, 0], gd[k, 1]) > 1e-6:
            ctx.expect(angle(obj.group_phi[k], np.arctan2(
                gd[k, 1], gd[k, 0])) < 1e-8, 'group:phi', 'azimuth %r' %
                obj.group_phi[k])
    # the cosine is rounded to ten digits
    cosw = np.clip(pv / ab, -1, 1)
    pf = np.array(obj.powerflow_angle)
    ctx.close(np.cos(pf), cosw, 'powerflow', 0, 2e-10)
    ctx.expect(np.all((pf >= 0) & (pf < np.pi / 2 + 1e-9)), 'powerflow',
               str(pf))
    ctx.count('groups')
    iso = np.array(obj.isotropic_velocity)
    ctx.close(obj.rel_phase_velocity, pv / iso, 'relative', 1e-12)
    ctx.close(obj.rel_group_velocity, ab / iso, 'relative', 1e-10)
    if not degenerate:
        if gap.min() > 0.03 * vel[-1]:
            for k in range(3):
                ctx.close(gv[k], gradient(C, rho, n, k), 'group:gradient', 0,
                          1e-6 * ab[k] * (1 + (0.3 * vel[-1] /
                                               gap.min())**3),
                          'group velocity is not the gradient of the phase '
                          'velocity (mode %d)' % k)
                A = enhancement(C, rho, n, k)
                if A < 1e3:
                    ctx.close(obj.enhancement[k], A, 'enhancement',
                              1e-6 * (1 + A) * (1 + (0.3 * vel[-1] /
                                                     gap.min())**3), 0,
                              'focusing factor of mode %d' % k)
                    ctx.count('enhancements')
            ctx.count('gradients')
    else:
        ctx.count('degenerate')
    ctx.nontrivial(cls, kind, bool(degenerate), setter)


def velocities(ctx, obj, C, rho, th, ph):
    """The elastic object's phase velocities."""
    vel = el.velocities(C, rho, el.direction(th, ph))
    got = np.array(obj.phase_velocity([th, ph]))
    ctx.close(got**2, vel**2, 'soec:phase', 0, 1e-12 * vel[2]**2)
    ctx.same([obj.shear_wave_1([th, ph]), obj.shear_wave_2([th, ph]),
              obj.longitudinal_wave([th, ph])], got.tolist(),
             'soec:named', 'slow, fast and primary waves')


def case(ctx, rng, i):
    from quantas.seismic.utils.seismic_obj import Seismic
    C, cls = el.tensor(rng, el.CLASSES[i % 9])
    if i % 4 == 3:
        C = el.rotate(C, el.rotation(rng))
        cls += '+rotated'
    rho = float(10**rng.uniform(2.7, 4.3))
    ctx.describe(cls=cls, C=C, density=rho)
    calc = el.prepare(ctx, C, rho)
    sei = Seismic(C.copy(), rho)
    H = el.averages(C)['H']
    vs = np.sqrt(1000 * H[2] / rho)
    vp = np.sqrt(1000 * (H[0] + 4 * H[2] / 3) / rho)
    tol = 1e-12 * np.linalg.cond(C)
    ctx.close(calc.soec.isotropic_velocities(), [vs, vs, vp],
              'isotropic', tol)
    ctx.close(sei.isotropic_velocity, [vs, vs, vp], 'isotropic', tol)
    ctx.close([sei.iso_S, sei.iso_P], [vs, vp], 'isotropic', tol)
    # the tensors the object says it works with
    ctx.close(sei.stiffness, C, 'stiffness', 1e-14)
    ctx.close(np.array(sei.compliance) @ C, np.eye(6), 'compliance', 0, tol)
    ctx.close([sei.bulk_modulus, sei.shear_modulus], [H[0], H[2]], 'hill',
              tol)
    c4, s4 = el.c4(C), el.s4(np.linalg.inv(C))
    for o in (sei, calc.soec):
        for ix in rng.integers(0, 3, (12, 4)):
            ix = tuple(int(x) for x in ix)
            if o is sei:
                ctx.close(o.C_ijkl(ix), c4[ix], 'C_ijkl', 0,
                          1e-14 * np.abs(C).max(), str(ix))
            if hasattr(o, 'S_ijkl'):
                ctx.close(o.S_ijkl(ix), s4[ix], 'S_ijkl', 0,
                          tol * np.abs(s4).max(), str(ix))
    seen = []
    for kind, th, ph in directions(rng, 12):
        n = el.direction(th, ph)
        velocities(ctx, calc.soec, C, rho, th, ph)
        if rng.random() < 0.5:
            sei.spherical_direction(th, ph)
            setter = 'angles'
            ctx.close([sei.theta, sei.phi], [th, ph], 'direction:angles', 0,
                      1e-14)
        else:
            setter = 'vector'
            own = n * 10**rng.uniform(-3, 3)
            if rng.random() < 0.35:
                # lattice directions, with exactly equal components
                while True:
                    own = rng.integers(-1, 2, 3).astype(float)
                    if own.any():
                        break
                own *= rng.choice([1., 2., 0.5, 3.])
                n, kind = own / np.linalg.norm(own), 'lattice'
                th = float(np.arccos(n[2]))
                ph = float(np.arctan2(n[1], n[0]))
            kept = own.copy()
            sei.cartesian_direction(own)
            ctx.same(own.tolist(), kept.tolist(),
                     'argument', 'the vector passed was changed')
            # the caller goes on using the array
            own[:] = own[::-1] if rng.random() < 0.5 else 0.0
            ctx.close(el.direction(sei.theta, sei.phi), n,
                      'direction:angles', 0, 1e-12)
        # read in any order: results belong to the direction just set
        names = rng.permutation(READ)[:int(rng.integers(0, 4))].tolist()
        if i % 3 == 0:
            names = [READ[i // 3 % len(READ)]] + names
        early = [(x, np.array(getattr(sei, x))) for x in names]
        ctx.count('early', len(early))
        if rng.random() < 0.2:
            sei.solve()
            sei.solve_group()
        seismic(ctx, sei, C, rho, n, kind, setter, cls)
        for x, v in early:
            ctx.same(v.tolist(), np.array(getattr(sei, x)).tolist(),
                     'read:' + x, '%s read first and last' % x)
        seen.append((th, ph, np.array(sei.phase_velocity),
                     np.array(sei.group_velocity)))
    # back to an earlier direction
    th, ph, pv, gv = seen[0]
    sei.spherical_direction(th, ph)
    ctx.close(sei.phase_velocity, pv, 'history', 0, 1e-9 * pv[2])
    # scaling
    a, b = 10**rng.uniform(-1, 1, 2)
    s2 = Seismic(C * a, rho * b)
    from quantas.soec.utils.soec_obj import SOEC
    e2 = SOEC(C * a, rho * b)
    f = np.sqrt(a / b)
    for th, ph, pv, gv in seen[::4]:
        s2.spherical_direction(th, ph)
        ctx.close(np.array(s2.phase_velocity), f * pv, 'scaling', 0,
                  1e-9 * f * pv[2])
        ctx.close(np.array(e2.phase_velocity([th, ph])), f * pv, 'scaling',
                  0, 1e-9 * f * pv[2])
    ctx.close(s2.isotropic_velocity, f * np.array(sei.isotropic_velocity),
              'scaling', tol)
    ctx.count('scalings')
    # co-rotation
    R = el.rotation(rng)
    s3 = Seismic(el.rotate(C, R), rho)
    th, ph, pv, gv = seen[0]
    s3.cartesian_direction(R @ el.direction(th, ph))
    ctx.close(np.array(s3.phase_velocity)**2, pv**2, 'rotation', 0,
              1e-11 * pv[2]**2)
    if np.diff(pv).min() > 1e-2 * pv[2]:
        ctx.close(np.array(s3.group_velocity), gv @ R.T, 'rotation:group', 0,
                  1e-7 * np.abs(gv).max())
    ctx.count('tensors')


def case_run(ctx, rng, i):
    """Average and directional velocities of a complete analysis."""
    C, cls = el.tensor(rng, 'orthorhombic')
    rho = float(10**rng.uniform(3, 4))
    ctx.describe(cls=cls, C=C, density=rho)
    calc = el.analyse(ctx, C, rho, polar=True)
    H = el.averages(C)['H']
    vs = np.sqrt(1000 * H[2] / rho)
    vp = np.sqrt(1000 * (H[0] + 4 * H[2] / 3) / rho)
    ctx.close(calc.results['avg_wave_velocities'], [vs, vs, vp],
              'run:isotropic', 1e-12 * np.linalg.cond(C))
    for plane, f in (('xy', lambda a: (np.pi / 2, a)),
                     ('xz', lambda a: (a, 0.0)),
                     ('yz', lambda a: (a, np.pi / 2))):
        w = np.asarray(calc.results['polar'][plane]['waves'])
        n = np.array([el.direction(*f(a)) for a in np.radians(w[:, 0])])
        ctx.close(w[:, 1:]**2, el.velocities(C, rho, n)**2, 'run:polar', 0,
                  1e-10 * w.max()**2, plane)
    ctx.count('runs')


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('tensor', 160 * k, case), Group('run', 8 * k, case_run)]
