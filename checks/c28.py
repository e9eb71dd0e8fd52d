"""C28: polynomial tools, derivative, direction and cofactor helpers."""
from fractions import Fraction

import numpy as np

from vlib.core import Group

PROPERTY = 'C28'
RULE = ('random polynomials of degree 0-8 over centred, shifted (volume-like) '
        'and wide abscissae, single series and stacks of any shape; '
        'regression, evaluation (scalar, vector, matrix and cube of '
        'coefficients), coefficient of determination, minimum search on '
        'derivatives built from chosen real and complex roots, finite '
        'differences, unit vectors and cofactors against exact rational '
        'arithmetic or the definition; non-trivial = distinct (tool, degree, '
        'shape, kind of abscissae)')
MIN = {'distinct': 100, 'repeated_abscissae': 10,
       'fits': 300, 'evaluations_exact': 3000,
       'r_squared': 200, 'minima_searches': 300, 'minima_found': 150,
       'without_minimum': 20, 'directions': 300, 'cofactors': 100,
       'derivatives': 40}
ASSUMPTIONS = ['minima with vanishing curvature and (nearly) coincident '
               'stationary points are not generated',
               'arrays are C-contiguous double precision arrays, as '
               'everywhere in the program']
WORKERS = 6
EPS = 2.3e-16


def exact(c, x):
    """Value and magnitude of the polynomial in rational arithmetic."""
    x = Fraction(float(x))
    v, m, p = Fraction(0), Fraction(0), Fraction(1)
    for a in c:
        t = Fraction(float(a)) * p
        v += t
        m += abs(t)
        p *= x
    return float(v), float(m)


def abscissae(rng, n):
    kind = ('centred', 'shifted', 'wide')[int(rng.integers(3))]
    if kind == 'centred':
        x = rng.uniform(-1, 1) + np.linspace(-1, 1, n) * rng.uniform(0.5, 3)
    elif kind == 'shifted':
        m = 10**rng.uniform(0.5, 3)
        x = m * (1 + np.linspace(-1, 1, n) * rng.uniform(0.06, 0.15))
    else:
        x = np.sort(rng.uniform(-20, 20, n))
        x += np.linspace(-1, 1, n)
    if rng.random() < 0.3:
        x = rng.permutation(x)
    return kind, np.ascontiguousarray(x)


def coefficients(rng, deg, shape=()):
    c = rng.normal(size=shape + (deg + 1,)) * 10**rng.uniform(-2, 2)
    if rng.random() < 0.2 and deg:
        c[..., int(rng.integers(deg + 1))] = 0.
    return np.ascontiguousarray(c)


def about(c, m):
    """Coefficients in powers of x of the polynomial c in (x - m)."""
    p = np.zeros(1)
    for a in c[::-1]:
        p = np.polynomial.polynomial.polyadd(
            np.polynomial.polynomial.polymul(p, [-m, 1.]), [a])
    out = np.zeros(len(c))
    out[:len(p)] = p[:len(c)]
    return out


def evaluate(ctx, rng, index):
    """interpolate at any point agrees with the polynomial."""
    from quantas.utils.math.polynomials import interpolate
    deg = int(rng.integers(0, 9))
    kind, X = abscissae(rng, int(rng.integers(1, 12)))
    if index % 4 == 0:      # special points
        X[int(rng.integers(len(X)))] = (0., 1., -1.)[int(rng.integers(3))]
    dim = index % 3
    shape = tuple(int(k) for k in rng.integers(1, 6, dim))
    c = coefficients(rng, deg, shape)
    keepx, keepc = X.copy(), c.copy()
    got = interpolate(X, c)
    ctx.same(X, keepx, 'argument', 'points modified by the evaluation')
    ctx.same(c, keepc, 'argument', 'coefficients modified by the evaluation')
    flat = c.reshape(-1, deg + 1)
    want = np.zeros((len(flat), len(X)))
    mag = np.zeros_like(want)
    for i, row in enumerate(flat):
        for j, x in enumerate(X):
            want[i, j], mag[i, j] = exact(row, x)
    want, mag = want.reshape(shape + (len(X),)), mag.reshape(
        shape + (len(X),))
    ctx.close(got, want, 'evaluate:%dd' % (dim + 1), 40 * EPS, scale=mag,
              msg='polynomial value, %s points' % kind)
    ctx.count('evaluations_exact', want.size)
    if dim < 2:
        x = float(X[0])
        one = interpolate(x, c)
        ctx.close(np.asarray(one), want[..., 0], 'evaluate:scalar',
                  40 * EPS, scale=mag[..., 0],
                  msg='polynomial value at one point')
        if len(X) > 1:
            k = int(rng.integers(len(X)))
            ctx.same(interpolate(X[k:k + 1].copy(), c),
                     np.asarray(got)[..., k:k + 1], 'evaluate:alone',
                     'value depends on the other points')
    ctx.describe(degree=deg, shape=shape, X=X)
    ctx.nontrivial('evaluate', deg, dim, kind)


def regression(ctx, rng, index):
    """polyfit reproduces polynomials and minimises the residual."""
    from quantas.utils.math.polynomials import R_squared, polyfit
    deg = int(rng.integers(0, 7))
    true = int(rng.integers(0, deg + 1))
    n = int(rng.integers(deg + 1, deg + 9))
    n = max(n, 2)
    kind, X = abscissae(rng, n)
    if kind == 'shifted':
        deg = min(deg, 5)
        true = min(true, deg)
    multi = index % 2
    rows = int(rng.integers(1, 7)) if multi else 1
    m = float(X.mean())
    s = float(np.abs(X - m).max())
    C = np.array([about(coefficients(rng, true) / s**np.arange(true + 1), m)
                  for _ in range(rows)])
    if index % 5 == 2 and n > deg + 2:
        # the same abscissa measured twice
        a, b = (int(k) for k in rng.choice(n, 2, replace=False))
        X[a] = X[b]
        ctx.count('repeated_abscissae')
    Y = np.zeros((rows, n))
    mag = np.zeros((rows, n))
    for i in range(rows):
        for j in range(n):
            Y[i, j], mag[i, j] = exact(C[i], X[j])
    noisy = index % 4 >= 2
    if noisy:
        Y += rng.normal(size=Y.shape) * np.abs(Y).max() * 10**rng.uniform(
            -4, -0.5)
    y = np.ascontiguousarray(Y) if multi else np.ascontiguousarray(Y[0])
    keepx, keepy = X.copy(), y.copy()
    p = polyfit(X, y, deg)
    ctx.same(X, keepx, 'argument', 'abscissae modified by the fit')
    ctx.same(y, keepy, 'argument', 'data modified by the fit')
    ctx.same(np.shape(p), (rows, deg + 1) if multi else (deg + 1,),
             'fit:shape', 'shape of the coefficients')
    P = np.atleast_2d(p)
    A = np.vander((X - m) / s, deg + 1, increasing=True)
    fit = np.zeros((rows, n))
    fmag = np.zeros((rows, n))
    for i in range(rows):
        for j in range(n):
            fit[i, j], fmag[i, j] = exact(P[i], X[j])
    best = A @ np.linalg.lstsq(A, Y.T, rcond=None)[0]
    tol = np.maximum(fmag, mag).max() * 1e-11
    ctx.close(fit, best.T, 'fit:least-squares', 0, tol + 1e-9 * np.abs(
        Y).max(), 'fitted values, degree %d, %s abscissae' % (deg, kind))
    if not noisy:
        xs = np.linspace(X.min(), X.max(), 7)
        for i in range(rows):
            for x in xs:
                a, b = exact(C[i], x), exact(P[i], x)
                ctx.close(b[0], a[0], 'fit:reproduces', 0,
                          1e-9 * max(a[1], b[1], np.abs(Y).max()),
                          'fitted polynomial of degree %d between the data '
                          'of one of degree %d' % (deg, true))
    ctx.count('fits')
    # coefficient of determination: definition on the program's own fit
    ybar = Y.mean(axis=1, keepdims=True)
    tot = np.sum((Y - ybar)**2, axis=1)
    pc = np.ascontiguousarray(p)
    keepp = pc.copy()
    r2 = np.atleast_1d(R_squared(X, y, pc))
    ctx.same(pc, keepp, 'argument', 'coefficients modified by R_squared')
    ctx.same(y, keepy, 'argument', 'data modified by R_squared')
    spread = Y.max(axis=1) - Y.min(axis=1)
    for i in range(rows):
        noise = fmag[i].max() * 50 * EPS
        if spread[i] < 1e4 * noise or spread[i] < 1e-6 * np.abs(Y[i]).max():
            continue
        want = np.sum((fit[i] - ybar[i])**2) / tot[i]
        ctx.close(r2[i], want, 'r2:definition', 1e-9 + 100 * noise / spread[i],
                  atol=1e-9, msg='coefficient of determination, row %d of %d' % (
                      i, rows))
        if not noisy:
            ctx.close(r2[i], 1., 'r2:exact', 1e-7 + 100 * noise / spread[i], msg='coefficient of '
                      'determination of exact data')
        else:
            ctx.expect(r2[i] <= 1 + 1e-7 + 100 * noise / spread[i], 'r2:range', 'above one: %r' % r2[i])
        # and of arbitrary coefficients, where it is not one
        q = np.array(P[i]) * (1 + 0.3 * rng.normal(size=deg + 1)) if \
            kind != 'shifted' else P[i] * rng.uniform(0.5, 1.5)
        q = np.ascontiguousarray(q)
        v = np.array([exact(q, x)[0] for x in X])
        args = (X, np.ascontiguousarray(Y[i:i + 1]), q[None].copy()) if \
            multi else (X, Y[i].copy(), q)
        ctx.close(np.ravel(R_squared(*args))[0],
                  np.sum((v - ybar[i])**2) / tot[i], 'r2:definition',
                  1e-8 + 100 * noise / spread[i], 1e-8 + 100 * noise /
                  spread[i], msg='coefficient of determination of other '
                  'coefficients')
        ctx.count('r_squared', 2)
    ctx.describe(degree=deg, true=true, rows=rows, X=X, noisy=noisy)
    ctx.nontrivial('fit', deg, true, rows > 1, kind, noisy)


def minima(ctx, rng, index):
    """find_polynomial_minimum returns all and only the real minima."""
    from quantas.utils.math.polynomials import find_polynomial_minimum
    nreal = int(rng.integers(0, 5))
    ncomplex = int(rng.integers(0, 3))
    if nreal + 2 * ncomplex > 6:
        ncomplex = 1
    centre = (0., 0., float(10**rng.uniform(0.3, 2.3)))[int(rng.integers(3))]
    width = float(10**rng.uniform(-0.3, 0.7)) if not centre else \
        centre * rng.uniform(0.1, 0.6)
    pos = np.sort(rng.uniform(-1, 1, nreal))
    if nreal > 1:
        pos = pos + 0.3 * np.arange(nreal) * (1 if index % 2 else 2)
    roots = centre + width * pos
    lead = float(rng.normal())
    lead = np.sign(lead) * max(abs(lead), 0.05)
    d = np.array([lead])
    for r in roots:
        d = np.polynomial.polynomial.polymul(d, [-r / width, 1 / width])
    pairs = []
    for _ in range(ncomplex):
        a, b = centre + width * rng.uniform(-1.5, 1.5), width * rng.uniform(
            0.3, 1.5)
        if rng.random() < 0.4:      # next to the real axis
            b = width * 10**rng.uniform(-5, -1)
        pairs.append((a, b))
        d = np.polynomial.polynomial.polymul(
            d, np.array([a * a + b * b, -2 * a, 1.]) / width**2)
    if nreal + ncomplex == 0:
        d = np.array([lead])
    # conditioning of the roots
    deriv = np.polynomial.polynomial.polyder(d) if len(d) > 1 else [0.]
    for r in roots:
        slope = abs(np.polynomial.polynomial.polyval(r, deriv))
        mag = exact(d, r)[1]
        if slope * width < 1e5 * EPS * mag * 100:
            return
    for a, b in pairs:
        value, mag = exact(d, a)
        if abs(float(value)) < 1e5 * EPS * mag:
            return
    f = np.polynomial.polynomial.polyint(d, k=[rng.normal()])
    add = None
    mode = index % 3
    if mode:
        add = float(rng.normal() * 10**rng.uniform(-1, 1))
        if mode == 2:
            add = np.float64(abs(add))
        f = f.copy()
        f[1] -= add
        lost = abs(add) * EPS * 100
    else:
        lost = 0.
    f = np.ascontiguousarray(f)
    keep = f.copy()
    got = np.sort(np.atleast_1d(find_polynomial_minimum(f) if add is None
                                else find_polynomial_minimum(f, add)))
    ctx.same(f, keep, 'argument', 'coefficients modified by the search')
    want = [r for r in roots
            if np.polynomial.polynomial.polyval(r, deriv) > 0]
    tol = 0.
    for r in roots:
        slope = abs(np.polynomial.polynomial.polyval(r, deriv))
        tol = max(tol, (exact(d, r)[1] * 1e4 * EPS + lost) / slope)
    ctx.expect(np.isrealobj(got), 'minima:complex', 'complex result')
    ctx.same(len(got), len(want), 'minima:number',
             'number of minima of %s + linear term %s (derivative roots %s, '
             'complex %s); returned %s, true %s' % (
                 f.tolist(), add, roots.tolist(), pairs, got.tolist(), want))
    ctx.close(got, np.array(want), 'minima:position', 1e-9,
              tol + 1e-10 * width, 'minima')
    ctx.count('minima_searches')
    ctx.count('minima_found', len(want))
    if not want:
        ctx.count('without_minimum')
    ctx.describe(f=f, addendum=add, roots=roots, complex=pairs)
    ctx.nontrivial('minimum', nreal, ncomplex, add is None, bool(centre),
                   lead > 0)


def helpers(ctx, rng, index):
    from quantas.utils.math.fast_math import cofactor, vector
    from quantas.utils.math.derivative import derivative
    from quantas.seismic.utils import seismic_obj as so
    from quantas.soec.utils import soec_obj as eo
    for _ in range(4):
        t, p = rng.uniform(0, np.pi), rng.uniform(-np.pi, 3 * np.pi)
        if rng.random() < 0.2:
            t, p = (float(k) for k in rng.choice(
                np.arange(0, 5) * np.pi / 2, 2))
        v = np.asarray(vector(t, p))
        ctx.close(v, [np.sin(t) * np.cos(p), np.sin(t) * np.sin(p),
                      np.cos(t)], 'vector', 0, 1e-15, 'direction')
        ctx.close(np.dot(v, v), 1., 'vector:norm', 1e-14, msg='unit vector')
        for mod in (so, eo):
            ctx.close(np.ravel(mod.vector(t, p)), v, 'vector:python', 0,
                      1e-15, 'direction')
        x = rng.uniform(-np.pi, 3 * np.pi)
        w = np.ravel(eo.vector(t, p, x))
        ctx.close([w @ w, w @ v], [1., 0.], 'vector:second', 0, 1e-14,
                  'transverse direction')
        z = np.array([-np.sin(p), np.cos(p), 0.])
        # chi turns it from the meridian towards the parallel
        ctx.close([w @ np.cross(z, v), w @ z], [np.cos(x), np.sin(x)],
                  'vector:second', 0, 1e-14, 'transverse direction')
        ctx.count('directions')
    M = rng.normal(size=(3, 3)) * 10**rng.uniform(-2, 3)
    if index % 3 == 0:
        M[2] = M[0] * rng.normal() + M[1]           # singular
    if index % 7 == 0:
        M = np.outer(M[0], M[1])                    # rank one
    if index % 5 == 0:
        M = np.round(M / np.abs(M).max() * 5)
        k = int(rng.integers(3))
        if index % 2:
            M[k] = 0.
        elif index % 4:
            M[:, k] = 0.
    M = np.ascontiguousarray(M)
    keep = M.copy()
    c = np.asarray(cofactor(M))
    ctx.same(M, keep, 'argument', 'matrix modified')
    want = np.zeros((3, 3))
    mag = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            m = np.delete(np.delete(M, i, 0), j, 1)
            want[i, j] = (-1)**(i + j) * float(
                Fraction(m[0, 0]) * Fraction(m[1, 1]) -
                Fraction(m[0, 1]) * Fraction(m[1, 0]))
            mag[i, j] = abs(m[0, 0] * m[1, 1]) + abs(m[0, 1] * m[1, 0])
    ctx.close(c, want, 'cofactor', 8 * EPS, scale=mag, msg='cofactors')
    c = so.cofactor(M)
    ctx.same(M, keep, 'argument', 'matrix modified')
    ctx.close(c, want, 'cofactor:python', 0, 1e-11 * np.abs(M).max()**2,
              msg='cofactors')
    ctx.count('cofactors')
    n = int(rng.integers(2, 15))
    X = np.cumsum(rng.uniform(0.1, 1, n)) * (1 if index % 2 else -1)
    a, b = rng.normal(size=2) * 10
    ctx.close(derivative(X, a * X + b), np.full(n, a), 'derivative:linear',
              1e-9, 1e-9 * (abs(a) + abs(b)), 'derivative of a line')
    if n > 2:
        h = rng.uniform(0.1, 1)
        X = rng.normal() + h * np.arange(n)
        q = rng.normal(size=3)
        Y = q[0] + q[1] * X + q[2] * X**2
        g = derivative(X, Y)
        ctx.close(g[1:-1], (q[1] + 2 * q[2] * X)[1:-1],
                  'derivative:parabola', 1e-9, 1e-9 * np.abs(Y).max() / h,
                  'derivative of a parabola inside the grid')
        ctx.close(g[[0, -1]], [(Y[1] - Y[0]) / h, (Y[-1] - Y[-2]) / h],
                  'derivative:ends', 1e-9, 1e-9 * np.abs(Y).max() / h)
    ctx.count('derivatives')
    ctx.nontrivial('helpers', index % 3 == 0, n > 2, index % 7 == 0)


def groups(tier):
    k = 12 if tier == 'thorough' else 1
    return [Group('evaluate', 240 * k, evaluate),
            Group('regression', 400 * k, regression),
            Group('minima', 600 * k, minima),
            Group('helpers', 120 * k, helpers)]
