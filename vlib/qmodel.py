"""Model crystals for quasi-harmonic runs and independent references."""
import numpy as np

from vlib import gen, ref

# ---- energy-volume equations of state (independent formulations) ----------


def eos_energy(name, V, E0, K0, Kp, V0):
    V = np.asarray(V, float)
    x = V / V0
    if name == 'murnaghan':
        return E0 + K0 * V0 * (x**(1 - Kp) / (Kp * (Kp - 1)) + x / Kp -
                               1 / (Kp - 1))
    if name == 'birchmurnaghan':
        f = 0.5 * (x**(-2. / 3) - 1)
        return E0 + 4.5 * K0 * V0 * f**2 * (1 + (Kp - 4) * f)
    if name == 'pouriertarantola':
        f = np.log(x)
        return E0 + 0.5 * K0 * V0 * f**2 * (1 - (Kp - 2) * f / 3)
    if name == 'vinet':
        y = 1 - x**(1. / 3)
        e = 1.5 * (Kp - 1)
        return E0 + 9 * K0 * V0 / e**2 * (1 + (e * y - 1) * np.exp(e * y))
    raise KeyError(name)


def eos_pressure(name, V, K0, Kp, V0):
    V = np.asarray(V, float)
    x = V / V0
    if name == 'murnaghan':
        return K0 / Kp * (x**-Kp - 1)
    if name == 'birchmurnaghan':
        f = 0.5 * (x**(-2. / 3) - 1)
        return 3 * K0 * f * (1 + 2 * f)**2.5 * (1 + 1.5 * (Kp - 4) * f)
    if name == 'pouriertarantola':
        f = -np.log(x)
        return K0 / x * f * (1 + 0.5 * (Kp - 2) * f)
    if name == 'vinet':
        z = x**(1. / 3)
        return 3 * K0 * (1 - z) / z**2 * np.exp(1.5 * (Kp - 1) * (1 - z))
    raise KeyError(name)


EOS = ('murnaghan', 'birchmurnaghan', 'pouriertarantola', 'vinet')


def deriv(f, x, h, n=1):
    """Eighth-order central first/second derivative."""
    c1 = (4 / 5., -1 / 5., 4 / 105., -1 / 280.)
    if n == 1:
        return sum(c * (f(x + (k + 1) * h) - f(x - (k + 1) * h))
                   for k, c in enumerate(c1)) / h
    c2 = (8 / 5., -1 / 5., 8 / 315., -1 / 560.)
    return (-205 / 72. * f(x) + sum(
        c * (f(x + (k + 1) * h) + f(x - (k + 1) * h))
        for k, c in enumerate(c2))) / h**2


class Model:
    """SI model: static EoS per cell + volume-dependent modes.

    freq(V): nu0 * poly or power law of x = V/V0.
    """

    def __init__(self, rng, nat=None, nq=None, eos=None, law=None):
        self.eos = eos or gen.pick(rng, EOS)
        large = rng.random()        # one large dimension
        self.nat = nat or (20 if large < 0.02 else
                           int(gen.pick(rng, (1, 1, 2, 2, 3, 3, 6))))
        self.nq = nq or (40 if large > 0.98 else
                         int(gen.pick(rng, (1, 1, 2, 2, 4, 4, 9))))
        if large < 0.02:
            self.nq = nq or 1
        if large > 0.98:
            self.nat = nat or 1
        self.V0 = self.nat * rng.uniform(6, 14) * 1e-30
        self.K0 = rng.uniform(40, 300) * 1e9
        self.Kp = rng.uniform(3.3, 5.2)
        self.E0 = -self.nat * 10**rng.uniform(0.3, 2.2) * ref.HA
        nb = 3 * self.nat
        nu = rng.uniform(100, 900, (self.nq, nb)) * ref.FREQ_HZ['cm^-1']
        if rng.random() < 0.25:     # soft modes
            k = rng.random(nu.shape) < 0.2
            nu[k] *= rng.uniform(0.02, 0.2)
        self.gamma = rng.uniform(0.7, 2.0, (self.nq, nb))
        self.law = law or gen.pick(rng, ('power', 'quadratic'))
        self.nu0 = nu
        self.zero = np.zeros((self.nq, nb), bool)
        if rng.random() < 0.6 and nb > 3:
            self.zero[0, :3] = True
        self.nu0[self.zero] = 0.0
        self.w = gen.weights(rng, self.nq)
        self.cell = gen.supercell(rng, int(gen.pick(rng, (1, 1, 2, 4))))
        if rng.random() < 0.15:
            # imaginary at every volume: written negative, left out
            q, b = int(rng.integers(self.nq)), int(rng.integers(nb))
            self.nu0[q, b] *= -1
        if self.nq > 1 and rng.random() < 0.1:
            self.w[int(rng.integers(self.nq))] = 0.0

    def freq(self, V):
        V = np.atleast_1d(np.asarray(V, float))
        x = (V / self.V0)[None, None, :]
        g = self.gamma[:, :, None]
        if self.law == 'power':
            return self.nu0[:, :, None] * x**-g
        y = x - 1
        return self.nu0[:, :, None] * (1 - g * y + 0.5 * g * (g + 1) * y * y)

    def static(self, V):
        return eos_energy(self.eos, V, self.E0, self.K0, self.Kp, self.V0)

    def thermo(self, V, T):
        """dict of (nt, nv) tables in J, J/K."""
        V = np.atleast_1d(V)
        r = ref.spectrum(self.freq(V), self.w, np.atleast_1d(T))
        U0 = self.static(V)[None]
        r['F'] = U0 + r['Fvib']
        r['Utot'] = U0 + r['Uzp'] + r['Uth']
        return r

    def F(self, V, T):
        """F(V, T) for one T, V array."""
        V = np.asarray(V, float)
        return self.thermo(np.ravel(V), [T])['F'][0].reshape(V.shape)

    def P(self, V, T):
        h = 1e-3 * self.V0
        # the static part cancels badly: differentiate the parts separately
        ps = eos_pressure(self.eos, V, self.K0, self.Kp, self.V0)
        w = self.w / self.w.sum()

        def fv(v):
            v = np.atleast_1d(v)
            return np.sum(ref.osc_fvib(self.freq(v), T) *
                          w[:, None, None], axis=(0, 1))
        return ps - deriv(fv, np.atleast_1d(V), h)

    def KT(self, V, T):
        h = 1e-3 * self.V0
        return -np.atleast_1d(V) * deriv(lambda v: self.P(v, T),
                                         np.atleast_1d(V), h)

    def volume(self, T, P):
        """Equilibrium volume by bisection on the exact P(V)."""
        lo, hi = 0.6 * self.V0, 1.25 * self.V0
        for _ in range(80):
            mid = 0.5 * (lo + hi)
            if self.P(mid, T)[0] > P:
                lo = mid
            else:
                hi = mid
        return 0.5 * (lo + hi)

    def document(self, u, vols):
        vu = ref.LENGTH_M[u['lenght_unit']]**3
        eu = ref.ENERGY_J[u['energy_unit']]
        return {'job': 'model crystal', 'natom': self.nat,
                'supercell': self.cell,
                'volume': vols / vu, 'energy': self.static(vols) / eu,
                'weights': self.w,
                'freq': self.freq(vols) / ref.FREQ_HZ[u['frequency_unit']]}


UNITS = dict(gen.UNITS, pressure_unit=('GPa', 'kbar'))


def units(rng):
    return {k: gen.pick(rng, v) for k, v in sorted(UNITS.items())}


def settings(u, tr, pr, scheme='td', mini='poly', eos='birchmurnaghan',
             edeg=3, fdeg=3, kieffer=False, silent=True, logfile=None):
    s = dict(u)
    tag = {'murnaghan': 'M', 'birchmurnaghan': 'BM', 'pouriertarantola': 'PT',
           'vinet': 'V'}[eos]
    s.update(trange=tr, prange=pr, qha_scheme=scheme, minimization=mini,
             eos=tag, eos_function=eos, edeg=edeg, fdeg=fdeg,
             kieffer=kieffer, silent=silent, debug=False, logfile=logfile)
    return s


def run(ctx, path, s, may_fail=False):
    """Run the real calculator with its screen output captured."""
    import contextlib
    import io
    from quantas.qha.qha import QHACalculator
    with contextlib.redirect_stdout(io.StringIO()):
        calc = QHACalculator(s)
        err = calc.read_input(path)
        ctx.expect(err is None, 'refused', 'valid input refused: %s' % err)
        calc.run()
    if may_fail and not calc.completed:
        ctx.expect(calc.error, 'no-reason', 'failed without an error')
        return calc
    ctx.expect(calc.completed, 'incomplete', 'run did not complete: %s'
               % calc.error)
    return calc


def si_tables(calc, u):
    """Result tables in SI per cell: J, J/K, m^3, Pa, K^-1."""
    eu = ref.ENERGY_J[u['energy_unit']]
    vu = ref.LENGTH_M[u['lenght_unit']]**3
    pu = ref.PRESS_PA[u['pressure_unit']]
    r = {k: np.array(v, float) for k, v in calc.results.items()}
    for k in ('Uzp', 'Uth', 'Utot', 'F', 'Fvib', 'H', 'G'):
        r[k] *= eu
    for k in ('S', 'Cv', 'Cp', 'Cp-Cv'):
        r[k] *= eu / 1000.
    r['VT'] *= vu
    for k in ('KT', 'KS'):
        r[k] *= pu
    r['T'] = ref.to_kelvin(calc.temperature, u['temperature_unit'])
    r['P'] = np.asarray(calc.pressure, float) * pu
    return r


def poly_fit(V, Y, deg):
    """Least-squares polynomial in a centred variable; returns callable
    derivatives."""
    V = np.asarray(V, float)
    c, s = V.mean(), np.ptp(V) / 2
    p = np.polynomial.chebyshev.Chebyshev.fit(
        V, Y, deg, domain=[c - s, c + s])
    return p


def model_setup(rng, nvol=None, thermal=True):
    """A model, its units, a volume grid and P/T ranges inside it."""
    m = Model(rng)
    u = units(rng)
    tmax = float(gen.pick(rng, (300., 600., 1000.)))
    pmax = float(np.round(rng.uniform(0.01, 0.06) * m.K0 / 1e9, 1))
    v_hi = m.volume(tmax, 0.0)
    v_lo = m.volume(0.0, pmax * 1e9)
    n = nvol or int(rng.integers(6, 13))
    pad = 0.25 * (v_hi - v_lo) + 0.01 * m.V0
    vols = np.linspace(v_lo - pad, v_hi + pad, n)
    vols[1:-1] += rng.uniform(-0.2, 0.2, n - 2) * (vols[1] - vols[0])
    return m, u, vols, tmax, pmax


# ---- reference route: what each scheme should report -----------------------
def eos_fit(name, V, F):
    """Independent least-squares EoS fit; (E0, K0, Kp, V0) in the units of
    V and F."""
    from scipy.optimize import least_squares
    V, F = np.asarray(V, float), np.asarray(F, float)
    vm = V.mean()
    p = poly_fit(V, F, min(4, len(V) - 1))
    grid = np.linspace(V.min(), V.max(), 401)
    v0 = grid[np.argmin(p(grid))]
    k0 = v0 * p.deriv(2)(v0)
    if not k0 > 0:
        k0 = 10 * np.ptp(F)
    f0 = F.min()
    sc = max(np.ptp(F), 1e-300)
    x0 = np.array([0.0, k0 * vm / sc, 4.0, v0 / vm])

    def res(x):
        return eos_energy(name, V / vm, x[0], x[1], x[2], x[3]) - \
            (F - f0) / sc
    r = least_squares(res, x0, x_scale=np.maximum(np.abs(x0), 0.1),
                      xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=2000,
                      method='trf')
    e0, k, kp, v = r.x
    return e0 * sc + f0, k * sc / vm, kp, v * vm


class Route:
    """Reference implementation of one QHA route over an SI document."""

    def __init__(self, vols, static, freq, w, scheme, mini, eos, edeg, fdeg):
        self.V, self.U0, self.nu = vols, static, freq
        self.w = np.asarray(w, float)
        self.scheme, self.mini, self.eos = scheme, mini, eos
        self.edeg, self.fdeg = edeg, fdeg
        self.pU = poly_fit(vols, static, edeg)
        self._tab = {}
        if scheme == 'freq':
            self.pnu = [[poly_fit(vols, freq[q, b], fdeg)
                         for b in range(freq.shape[1])]
                        for q in range(freq.shape[0])]

    def table(self, T):
        """HA tables at the sampled volumes for one T."""
        if T not in self._tab:
            r = ref.spectrum(self.nu, self.w, [T])
            t = {k: r[k][0] for k in ('Uzp', 'Uth', 'S', 'Fvib', 'Cv')}
            t['Utot'] = self.U0 + t['Uzp'] + t['Uth']
            t['F'] = self.U0 + t['Fvib']
            t['fit'] = {k: poly_fit(self.V, t[k], self.edeg)
                        for k in ('Uzp', 'Uth', 'S', 'Fvib', 'Cv', 'Utot',
                                  'F')}
            self._tab[T] = t
        return self._tab[T]

    def minima(self, T, P):
        """All stationary minima of the polynomial F + PV."""
        g = self.table(T)['fit']['F'].deriv() + P
        r = g.roots()
        r = r[np.abs(r.imag) <= 1e-9 * self.V.mean()].real
        return r[g.deriv()(r) > 0] if r.size else r

    def volume(self, T, P):
        """(V, K, Kp) or None when no minimum lies in the sampled range."""
        if self.mini == 'poly':
            r = self.minima(T, P)
            r = r[(r >= self.V.min()) & (r <= self.V.max())]
            if len(r) != 1:
                return None
            return r[0], None, None
        e0, k, kp, v0 = eos_fit(self.eos, self.V,
                                self.table(T)['F'] + P * self.V)
        return v0, k, kp

    def F(self, V, T):
        """The free-energy curve this scheme interpolates."""
        if self.scheme == 'td':
            return self.table(T)['fit']['F'](V)
        return self.at(V, T)['F']

    def at(self, V, T):
        V = np.atleast_1d(np.asarray(V, float))
        if self.scheme == 'td':
            f = self.table(T)['fit']
            return {k: f[k](V) for k in f}
        nu = np.array([[p(V) for p in row] for row in self.pnu])
        r = ref.spectrum(nu, self.w, [T])
        o = {k: r[k][0] for k in ('Uzp', 'Uth', 'S', 'Fvib', 'Cv')}
        o['Utot'] = self.pU(V) + o['Uzp'] + o['Uth']
        o['F'] = self.pU(V) + o['Fvib']
        return o

    def bulk(self, V, T):
        """V F'' and -(F'' + V F''')/F'' of the interpolated curve."""
        if self.scheme == 'td':
            p = self.table(T)['fit']['F']
            d2, d3 = p.deriv(2)(V), (p.deriv(3)(V) if self.edeg >= 3 else 0.)
        else:
            h = 4e-3 * V

            def fv(v):
                nu = np.array([[p(np.atleast_1d(v)) for p in row]
                               for row in self.pnu])
                ww = self.w / self.w.sum()
                return np.sum(ref.osc_fvib(nu, T) * ww[:, None, None],
                              axis=(0, 1))
            d2 = self.pU.deriv(2)(V) + deriv(fv, V, h, 2)[0]
            d3 = (self.pU.deriv(3)(V) if self.edeg >= 3 else 0.) + \
                deriv(lambda v: deriv(fv, v, h, 2), V, h)[0]
        return V * d2, -(d2 + V * d3) / d2


def si_document(d, u):
    """(V, U0, nu, w) of a document in SI."""
    return (np.asarray(d['volume']) * ref.LENGTH_M[u['lenght_unit']]**3,
            np.asarray(d['energy']) * ref.ENERGY_J[u['energy_unit']],
            np.asarray(d['freq']) * ref.FREQ_HZ[u['frequency_unit']],
            d['weights'])
