"""Elastic tensors: generators and independent full-tensor references.

Stiffness in GPa; compliance in GPa^-1; velocities in km/s."""
import itertools
import os

import numpy as np

VOIGT = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
IDX = np.zeros((3, 3), int)
for _k, (_a, _b) in enumerate(VOIGT):
    IDX[_a, _b] = IDX[_b, _a] = _k
CLASSES = ('cubic', 'hexagonal', 'trigonal_high', 'trigonal_low',
           'tetragonal_high', 'tetragonal_low', 'orthorhombic', 'monoclinic',
           'triclinic')


def c4(C):
    """Voigt stiffness -> full tensor."""
    return np.asarray(C)[IDX[:, :, None, None], IDX[None, None]]


def s4(S):
    """Voigt compliance -> full tensor."""
    f = np.where(IDX > 2, 0.5, 1.0)
    return np.asarray(S)[IDX[:, :, None, None], IDX[None, None]] * \
        f[:, :, None, None] * f[None, None]


def voigt(T):
    C = np.zeros((6, 6))
    for i, (a, b) in enumerate(VOIGT):
        for j, (c, d) in enumerate(VOIGT):
            C[i, j] = T[a, b, c, d]
    return C


def rotate(C, R):
    T = np.einsum('ai,bj,ck,dl,ijkl->abcd', R, R, R, R, c4(C),
                  optimize=True)
    M = voigt(T)
    return 0.5 * (M + M.T)


def rotation(rng):
    q = rng.standard_normal(4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([
        [1 - 2 * (y*y + z*z), 2 * (x*y - z*w), 2 * (x*z + y*w)],
        [2 * (x*y + z*w), 1 - 2 * (x*x + z*z), 2 * (y*z - x*w)],
        [2 * (x*z - y*w), 2 * (y*z + x*w), 1 - 2 * (x*x + y*y)]])


def form(cls, c):
    """6x6 matrix of a class in its standard setting from c[(i, j)]."""
    M = np.zeros((6, 6))

    def put(i, j, v):
        M[i - 1, j - 1] = M[j - 1, i - 1] = v
    g = c.__getitem__
    if cls == 'cubic':
        for i in (1, 2, 3):
            put(i, i, g(11))
            put(i + 3, i + 3, g(44))
        for i, j in ((1, 2), (1, 3), (2, 3)):
            put(i, j, g(12))
    elif cls in ('orthorhombic', 'monoclinic', 'triclinic'):
        pairs = [(i, i) for i in range(1, 7)] + [(1, 2), (1, 3), (2, 3)]
        if cls == 'monoclinic':
            pairs += [(1, 5), (2, 5), (3, 5), (4, 6)]
        if cls == 'triclinic':
            pairs = [(i, j) for i in range(1, 7) for j in range(i, 7)]
        for i, j in pairs:
            put(i, j, g(10 * i + j))
    else:
        put(1, 1, g(11))
        put(2, 2, g(11))
        put(3, 3, g(33))
        put(1, 2, g(12))
        put(1, 3, g(13))
        put(2, 3, g(13))
        put(4, 4, g(44))
        put(5, 5, g(44))
        put(6, 6, g(66) if cls.startswith('tetra') else
            (g(11) - g(12)) / 2)
        if cls == 'tetragonal_low':
            put(1, 6, g(16))
            put(2, 6, -g(16))
        if cls.startswith('trigonal'):
            put(1, 4, g(14))
            put(2, 4, -g(14))
            put(5, 6, g(14))
        if cls == 'trigonal_low':
            put(1, 5, g(15))
            put(2, 5, -g(15))
            put(4, 6, -g(15))
    return M


def constants(rng, spread):
    """Random independent constants around an isotropic solid of scale 1."""
    lam, mu = rng.uniform(-0.15, 0.8), rng.uniform(0.15, 0.6)
    c = {}
    for i in range(1, 7):
        for j in range(i, 7):
            base = 0.0
            if i <= 3 and j <= 3:
                base = lam
            if i == j:
                base = lam + 2 * mu if i <= 3 else mu
            off = (i != j) and j > 3
            amp = spread * (0.35 if off else 1.0) * 0.5
            v = base + amp * rng.standard_normal()
            if off:     # keep symmetry-breaking constants well off zero
                v += np.sign(v) * 0.05 * spread
            c[10 * i + j] = v
    return c


def tensor(rng, cls=None, spread=None, scale=None, cond=2e-3):
    """Positive definite stiffness of a class in its standard setting."""
    cls = cls or CLASSES[int(rng.integers(len(CLASSES)))]
    if scale is None:
        # now and then as soft as a molecular crystal, as hard as none
        scale = 10**(rng.uniform(0, 3.3) if rng.random() < 0.2 else
                     rng.uniform(0.7, 2.8))
    s = spread
    while True:
        sp = s if s is not None else 10**rng.uniform(-1.3, 0.1)
        C = form(cls, constants(rng, sp))
        w = np.linalg.eigvalsh(C)
        if w[0] > cond * w[-1]:
            break
    return C * scale, cls


def distinct(C, cls, tol=0.05):
    """The tensor is not close to a higher symmetry form (labels are
    decided by differences against 1e-3 GPa)."""
    d = [C[0, 0] - C[1, 1], C[0, 0] - C[2, 2], C[0, 1] - C[0, 2],
         C[0, 1] - C[1, 2], C[0, 2] - C[1, 2], C[3, 3] - C[4, 4],
         C[3, 3] - C[5, 5], C[4, 4] - C[5, 5],
         C[5, 5] - (C[0, 0] - C[0, 1]) / 2,
         C[3, 3] - (C[0, 0] - C[0, 1]) / 2]
    d += [C[i, j] for i in range(6) for j in range(max(i + 1, 3), 6)]
    d = np.abs(d)
    return not np.any((d > 1e-9 * np.abs(C).max()) & (d < tol))


# ---- references -------------------------------------------------------
def direction(th, ph):
    th, ph = np.broadcast_arrays(th, ph)
    return np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph),
                     np.cos(th)], -1)


def second(th, ph, ch):
    """Unit vector normal to direction(th, ph) at angle ch."""
    th, ph, ch = np.broadcast_arrays(th, ph, ch)
    return np.stack([
        np.cos(th) * np.cos(ph) * np.cos(ch) - np.sin(ph) * np.sin(ch),
        np.cos(th) * np.sin(ph) * np.cos(ch) + np.cos(ph) * np.sin(ch),
        -np.sin(th) * np.cos(ch)], -1)


def young(S4, n):
    return 1 / np.einsum('...i,...j,...k,...l,ijkl->...', n, n, n, n, S4,
                         optimize=True)


def lincomp(S4, n):
    """TPa^-1."""
    return 1000 * np.einsum('...i,...j,ijkk->...', n, n, S4, optimize=True)


def shear(S4, n, m):
    return 0.25 / np.einsum('...i,...j,...k,...l,ijkl->...', n, m, n, m, S4,
                            optimize=True)


def poisson(S4, n, m):
    return -np.einsum('...i,...j,...k,...l,ijkl->...', n, n, m, m, S4,
                      optimize=True) * young(S4, n)


def frame(n):
    """Two unit vectors normal to each n."""
    a = np.zeros_like(n)
    k = np.argmin(np.abs(n), -1)
    np.put_along_axis(a, k[..., None], 1.0, -1)
    u = np.cross(n, a)
    u /= np.linalg.norm(u, axis=-1, keepdims=True)
    return u, np.cross(n, u)


def _plane(B, n):
    """Extreme values of m.B.m over unit m normal to n."""
    u, v = frame(n)
    a = np.einsum('...i,...ij,...j->...', u, B, u)
    b = np.einsum('...i,...ij,...j->...', v, B, v)
    c = np.einsum('...i,...ij,...j->...', u, B, v)
    r = np.hypot((a - b) / 2, c)
    return (a + b) / 2 - r, (a + b) / 2 + r


def shear_range(S4, n):
    B = np.einsum('...i,...k,ijkl->...jl', n, n, S4, optimize=True)
    lo, hi = _plane(0.5 * (B + np.swapaxes(B, -1, -2)), n)
    return 0.25 / hi, 0.25 / lo


def poisson_range(S4, n):
    B = np.einsum('...i,...j,ijkl->...kl', n, n, S4, optimize=True)
    lo, hi = _plane(0.5 * (B + np.swapaxes(B, -1, -2)), n)
    E = young(S4, n)
    return -hi * E, -lo * E


def christoffel(C, rho, n):
    """Gamma/rho in (km/s)^2."""
    return np.einsum('...j,...l,ijkl->...ik', n, n, c4(C),
                     optimize=True) * 1000.0 / rho


def velocities(C, rho, n):
    w = np.linalg.eigvalsh(christoffel(C, rho, n))
    return np.sign(w) * np.sqrt(np.abs(w))


def averages(C):
    """{'V'|'R'|'H': (K, E, G, nu)}."""
    S = np.linalg.inv(C)
    KV = np.einsum('iijj', c4(C)) / 9
    GV = (np.einsum('ijij', c4(C)) - 3 * KV) / 10
    KR = 1 / np.einsum('iijj', s4(S))
    GR = 10 / (4 * np.einsum('ijij', s4(S)) - 4 / 3. / KR) * 1.0
    out = {}
    for k, (K, G) in (('V', (KV, GV)), ('R', (KR, GR)),
                      ('H', ((KV + KR) / 2, (GV + GR) / 2))):
        out[k] = (K, 9 * K * G / (3 * K + G), G,
                  (3 * K - 2 * G) / (2 * (3 * K + G)))
    return out


def sphere(n):
    """n nearly uniform directions of the upper half sphere."""
    i = np.arange(n) + 0.5
    z = 1 - i / n
    ph = np.pi * (1 + 5**0.5) * i
    r = np.sqrt(1 - z * z)
    return np.stack([r * np.cos(ph), r * np.sin(ph), z], -1)


_GRID = {}


def extreme(S4, what, n=6000, polish=6):
    """((min, n_min), (max, n_max)) over all directions, grid + polish."""
    from scipy.optimize import minimize
    g = _GRID.setdefault(n, sphere(n))

    def f(v, sgn):
        if what == 'E':
            r = young(S4, v)
        elif what == 'LC':
            r = lincomp(S4, v)
        else:
            r = (shear_range if what == 'G' else poisson_range)(S4, v)
            r = r[0] if sgn > 0 else r[1]
        return sgn * r
    out = []
    for sgn in (1, -1):
        val = f(g, sgn)
        best, vec = np.inf, None
        for k in np.argsort(val)[:polish * 8:8]:
            v0 = g[k]
            a, b = frame(v0)

            def h(p):
                v = v0 + p[0] * a + p[1] * b
                return float(f(v / np.linalg.norm(v), sgn))
            r = minimize(h, [0.0, 0.0], method='Nelder-Mead',
                         options={'xatol': 1e-7, 'fatol': 1e-13 * (
                             1 + abs(val[k])), 'initial_simplex':
                             [[0, 0], [0.02, 0], [0, 0.02]]})
            if r.fun < best:
                best = r.fun
                v = v0 + r.x[0] * a + r.x[1] * b
                vec = v / np.linalg.norm(v)
        out.append((sgn * best, vec))
    return out


# ---- documents and runs ----------------------------------------------
def write(path, C, density=None, form='full', title='test crystal',
          fmt='%.17e', pad='  '):
    lines = [] if title is None else [title]
    for i in range(6):
        row = {'full': C[i], 'upper': C[i, i:],
               'lower': C[i, :i + 1]}[form]
        lines.append(pad + pad.join(fmt % v for v in row))
    if density is not None:
        lines.append(('%r' % density))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return path


def settings(polar=False, silent=True, logfile=None, plotting=False,
             outfig=None, dpi=80, debug=False):
    return {'pressure_unit': 'GPa', 'debug': debug, 'silent': silent,
            'polar': polar, 'plotting': plotting, 'dpi': dpi,
            'logfile': logfile, 'outfig': outfig}


def prepare(ctx, C, density=None, polar=False, name='c.dat', **kw):
    """Calculator with the input file read."""
    from quantas.soec.soec import SOECCalculator
    path = write(os.path.join(ctx.workdir, name), C, density)
    calc = SOECCalculator(settings(polar, **kw))
    err = calc.read_input(path)
    ctx.expect(err is None, 'refused', 'valid tensor refused: %s' % err)
    return calc


def analyse(ctx, C, density=None, polar=False, name='c.dat', **kw):
    """Complete elastic analysis through input file and calculator."""
    calc = prepare(ctx, C, density, polar, name, **kw)
    calc.run()
    ctx.expect(calc.completed, 'refused', 'valid tensor not analysed: %s' %
               calc.error)
    return calc
