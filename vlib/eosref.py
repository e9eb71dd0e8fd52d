"""Independent pressure and energy forms of the equations of state."""
import numpy as np

NAMES = ('Murnaghan', 'BirchMurnaghan', 'NaturalStrain', 'Vinet', 'Tait')
ORDERS = {'Murnaghan': (3,), 'BirchMurnaghan': (2, 3, 4),
          'NaturalStrain': (2, 3, 4), 'Vinet': (2, 3), 'Tait': (2, 3, 4)}
SECOND = {'BirchMurnaghan': 4., 'NaturalStrain': 2., 'Vinet': 1.,
          'Tait': 4.}
KEY = dict(zip(NAMES, '12345'))
PRETTY = {'Murnaghan': 'Murnaghan', 'BirchMurnaghan': 'Birch-Murnaghan',
          'NaturalStrain': 'Natural Strain', 'Vinet': 'Vinet', 'Tait': 'Tait'}


def pressure(name, K, Kp, Kpp, V0, V):
    y = V / V0
    if name == 'Murnaghan':
        return K / Kp * np.expm1(-Kp * np.log(y))
    x = np.cbrt(y)
    if name == 'BirchMurnaghan':
        f = (x**-2 - 1) / 2
        return 3 * K * f * (x**-5) * (
            1 + f * (1.5 * (Kp - 4) + f * 1.5 * (
                K * Kpp + (Kp - 4) * (Kp - 3) + 35. / 9)))
    if name == 'NaturalStrain':
        f = -np.log(x)
        d = Kp - 2
        return 3 * K / y * f * (1 + f * (1.5 * d + f * 1.5 * (
            1 + K * Kpp + d + d * d)))
    if name == 'Vinet':
        return 3 * K * (1 - x) / x**2 * np.exp(1.5 * (Kp - 1) * (1 - x))
    h = K * Kpp
    a = (1 + Kp) / (1 + Kp + h)
    b = Kp / K - Kpp / (1 + Kp)
    c = (1 + Kp + h) / (Kp**2 + Kp - h)
    return np.expm1(-np.log1p((y - 1) / a) / c) / b


def implied(name, order, linear, K, Kp, Kpp):
    """(K', K'') in force at an order."""
    if order == 2:
        Kp = SECOND[name] * (3 if linear else 1)
    if order < 4:
        if name == 'Murnaghan':
            Kpp = 0.
        elif name == 'BirchMurnaghan':
            Kpp = -((3 - Kp) * (4 - Kp) + 35. / 9) / K
        elif name == 'NaturalStrain':
            Kpp = -(1 + (Kp - 2) + (Kp - 2)**2) / K
        elif name == 'Vinet':
            Kpp = -((Kp / 2)**2 + Kp / 2 - 19. / 36) / K
        else:
            Kpp = -Kp / K
    return Kp, Kpp


def parameters(rng, name, order, linear):
    """Physically meaningful (K0, K', K'', V0) as in force at the order."""
    K = float(np.exp(rng.uniform(np.log(3), np.log(800))))
    k = 3 if linear else 1
    if linear:
        K *= 3
        V0 = float(rng.uniform(2.5, 25))
    else:
        V0 = float(np.exp(rng.uniform(np.log(8), np.log(3000))))
    Kp = float(rng.uniform(2.2, 7.5)) * k
    Kpp = 0.
    if order == 4:
        k3 = implied(name, 3, linear, K, Kp, 0.)[1]
        Kpp = k3 * float(rng.uniform(0.6, 1.5))
        if name == 'Tait':
            # away from the degenerate 1 + K' + K0 K'' = 0
            Kpp = -Kp / K * float(rng.uniform(0.5, 1.0 + 0.5 / Kp))
    Kp, Kpp = implied(name, order, linear, K, Kp, Kpp)
    return K, Kp, Kpp, V0


def derivatives(f, x0, n, half, deg=18):
    """f and its first n derivatives at x0 from samples in x0(1 +- half)."""
    from numpy.polynomial import chebyshev as C
    t = np.cos(np.pi * (np.arange(deg + 1) + 0.5) / (deg + 1))
    c = C.chebfit(t, f(x0 * (1 + half * t)), deg)
    out = []
    for m in range(n + 1):
        out.append(C.chebval(0., C.chebder(c, m) if m else c) /
                   (x0 * half)**m)
    return out


EV = {'murnaghan': 'Murnaghan', 'birchmurnaghan': 'BirchMurnaghan',
      'vinet': 'Vinet', 'pouriertarantola': 'NaturalStrain'}


def energy(tag, V, E0, K, Kp, V0):
    y = V / V0
    x = np.cbrt(y)
    if tag == 'murnaghan':
        return E0 + K * V0 * (y / Kp * (y**-Kp / (Kp - 1) + 1) -
                              1 / (Kp - 1))
    if tag == 'birchmurnaghan':
        f = (x**-2 - 1) / 2
        return E0 + 4.5 * K * V0 * f * f * (1 + (Kp - 4) * f)
    if tag == 'pouriertarantola':
        r = np.log(y)
        return E0 + K * V0 * r * r / 6 * (3 - r * (Kp - 2))
    q = 1.5 * (Kp - 1)
    return E0 + 9 * K * V0 / q**2 * (1 + (q * (1 - x) - 1) *
                                     np.exp(q * (1 - x)))
