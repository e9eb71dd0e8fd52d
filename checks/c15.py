"""C15: directional properties are contractions of the compliance tensor."""
import numpy as np

from vlib import elastic as el
from vlib.core import Group

PROPERTY = 'C15'
RULE = ('random positive definite tensors of nine Laue classes and rotated '
        'copies, read through the program so that it picks its own '
        'evaluation route; Young modulus, linear compressibility, shear '
        'modulus and Poisson ratio along random, axial, in-plane and '
        'negative or wrapped angles against the full contraction with the '
        'corresponding unit vectors; inversion, rotation and closed form '
        'comparisons; non-trivial = distinct (class, route, special '
        'direction kind)')
MIN = {'distinct': 60, 'tensors': 100, 'directions': 2500, 'inversions': 500,
       'corotations': 300, 'closed_forms': 800}
ASSUMPTIONS = ['angles: theta from z, phi from x; the second vector is the '
               'one whose angle chi turns from the theta tangent to the phi '
               'tangent, as documented by quantas']


def angle_sets(rng, n):
    """(kind, theta, phi, chi)."""
    q = np.pi / 4
    for k in range(n):
        kind = ('random', 'axis', 'plane', 'wrapped')[k % 4]
        if kind == 'random':
            a = np.array([np.arccos(rng.uniform(-1, 1)),
                          rng.uniform(0, 2 * np.pi),
                          rng.uniform(0, 2 * np.pi)])
        elif kind == 'axis':
            a = q * rng.integers(0, 9, 3)
        elif kind == 'plane':
            a = rng.uniform(0, np.pi, 3)
            a[rng.integers(3)] = q * rng.integers(0, 5)
        else:
            a = rng.uniform(-4 * np.pi, 4 * np.pi, 3)
        yield kind, a
        if rng.random() < 0.2:      # hardly another direction
            d = rng.choice([0., 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2])
            yield kind + '+near', a + d * rng.uniform(-1, 1, 3)


def values(obj, a):
    return np.array([float(obj.young_modulus([a[0], a[1]])),
                     float(obj.linear_compressibility([a[0], a[1]])),
                     float(obj.shear_modulus(list(a))),
                     float(obj.poisson_ratio(list(a)))])


def wanted(S4, a):
    n, m = el.direction(a[0], a[1]), el.second(*a)
    return np.array([el.young(S4, n), el.lincomp(S4, n), el.shear(S4, n, m),
                     el.poisson(S4, n, m)]), n, m


NAMES = ('E', 'LC', 'G', 'Nu')


def compare(ctx, got, want, scales, tol, key, msg=''):
    for k, name in enumerate(NAMES):
        ctx.close(got[k], want[k], '%s:%s' % (key, name), tol, 0, msg,
                  scale=max(abs(want[k]), scales[k]))


def angles_of(n, m):
    """Angles whose first and second vectors are n and m."""
    th = np.arctan2(np.hypot(n[0], n[1]), n[2])
    ph = np.arctan2(n[1], n[0])
    u = el.second(th, ph, 0.0)
    v = el.second(th, ph, np.pi / 2)
    return np.array([th, ph, np.arctan2(m @ v, m @ u)])


def case(ctx, rng, i):
    from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
    cls = el.CLASSES[i % 9]
    C, cls = el.tensor(rng, cls)
    if i % 5 == 4:
        C = el.rotate(C, el.rotation(rng))
        cls += '+rotated'
    ctx.describe(cls=cls, C=C)
    calc = el.prepare(ctx, C, rng.uniform(1000, 9000) if i % 2 else None)
    obj = calc.soec
    S = np.linalg.inv(C)
    S4 = el.s4(S)
    cond = np.linalg.cond(C)
    # compliance elements of a nearly singular tensor carry its conditioning
    tol = 1e-13 * max(cond, 100)
    smax = np.abs(S4).max()
    for kind, a in angle_sets(rng, 16):
        want, n, m = wanted(S4, a)
        # cancellation: values are sums of terms as large as smax
        sc = np.array([want[0] * max(1, smax * want[0]), 1000 * smax,
                       want[2] * max(1, 4 * smax * want[2]),
                       smax * want[0] * max(1, abs(want[3]))])
        got = values(obj, a)
        compare(ctx, got, want, sc, tol, 'contraction',
                '%s at %s (%s)' % (cls, a.tolist(), kind))
        ctx.count('directions')
        ctx.nontrivial(cls, type(obj).__name__, kind,
                       tuple(np.round(a / (np.pi / 4), 6))
                       if kind == 'axis' else '')
        # reversing either vector
        for b in (angles_of(-n, m), angles_of(n, -m), angles_of(-n, -m)):
            compare(ctx, values(obj, b), got, sc, 2 * tol, 'inversion')
            ctx.count('inversions')
        # shear modulus does not depend on which vector comes first
        b = angles_of(m, n)
        ctx.close(float(obj.shear_modulus(list(b))), got[2],
                  'exchange:G', 2 * tol, scale=sc[2])
    # co-rotation
    R = el.rotation(rng)
    rot = SOEC(el.rotate(C, R))
    for kind, a in angle_sets(rng, 6):
        want, n, m = wanted(S4, a)
        sc = np.array([want[0] * max(1, smax * want[0]), 1000 * smax,
                       want[2] * max(1, 4 * smax * want[2]),
                       smax * want[0] * max(1, abs(want[3]))])
        b = angles_of(R @ n, R @ m)
        compare(ctx, values(rot, b), values(obj, a), 3 * sc, 10 * tol,
                'rotation', 'rotated crystal along the rotated direction')
        ctx.count('corotations')
    ctx.count('tensors')
    # closed forms
    if cls in ('cubic', 'hexagonal', 'tetragonal_high', 'orthorhombic'):
        gen = SOEC(C)
        orth = SOECOrtho(SOEC(C))
        for kind, a in angle_sets(rng, 24):
            want, n, m = wanted(S4, a)
            sc = np.array([want[0] * max(1, smax * want[0]), 1000 * smax,
                           want[2] * max(1, 4 * smax * want[2]),
                           smax * want[0] * max(1, abs(want[3]))])
            g, o = values(gen, a), values(orth, a)
            compare(ctx, o, g, sc, 10 * tol, 'closed',
                    'closed form and general value differ')
            compare(ctx, o, want, sc, 10 * tol, 'closed',
                    'closed form and contraction differ')
            ctx.count('closed_forms')


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('tensor', 270 * k, case)]
