"""Independent reference values and models (2019 SI / CODATA 2018)."""
import numpy as np

H = 6.62607015e-34
KB = 1.380649e-23
NA = 6.02214076e23
C = 299792458.0
EV = 1.602176634e-19
HA = 4.3597447222071e-18
RY = HA / 2.0
BOHR = 5.29177210903e-11
ANG = 1e-10

ENERGY_J = {'Ha': HA, 'eV': EV, 'Ry': RY}
LENGTH_M = {'A': ANG, 'bohr': BOHR}
FREQ_HZ = {'cm^-1': C * 100.0, 'THz': 1e12, 'Hz': 1.0}
PRESS_PA = {'GPa': 1e9, 'kbar': 1e8}


def to_kelvin(t, unit):
    return np.asarray(t, float) + (273.15 if unit == 'C' else 0.0)


# ---- one oscillator, J and J/K; nu in Hz, T in K --------------------------
def _x(nu, T):
    with np.errstate(all='ignore'):
        return H * nu / (KB * T)


def osc_zpe(nu):
    return np.where(nu > 0, 0.5 * H * nu, 0.0)


def osc_eth(nu, T):
    with np.errstate(all='ignore'):
        r = H * nu / np.expm1(_x(nu, T))
    return np.where((nu > 0) & (T > 0), r, 0.0)


def osc_s(nu, T):
    with np.errstate(all='ignore'):
        x = _x(nu, T)
        n = 1.0 / np.expm1(x)
        r = np.where(x > 700, 0.0, KB * (n * x - np.log(-np.expm1(-x))))
    return np.where((nu > 0) & (T > 0), r, 0.0)


def osc_fvib(nu, T):
    with np.errstate(all='ignore'):
        r = KB * T * np.log(-np.expm1(-_x(nu, T)))
    return osc_zpe(nu) + np.where((nu > 0) & (T > 0), r, 0.0)


def osc_cv(nu, T):
    with np.errstate(all='ignore'):
        h = 0.5 * _x(nu, T)
        r = np.where(h > 350, 0.0, KB * (h / np.sinh(h))**2)
    return np.where((nu > 0) & (T > 0), r, 0.0)


def spectrum(nu, w, T):
    """Weighted averages per cell, J (J/K). nu (nq, nb, nv), T (nt,) in K."""
    w = np.asarray(w, float) / np.sum(w)
    nu4 = np.asarray(nu, float)[None]
    T4 = np.asarray(T, float)[:, None, None, None]
    ww = w[None, :, None, None]

    def tot(a):
        return np.sum(a * ww, axis=(1, 2))
    out = {'Uzp': tot(osc_zpe(nu4)), 'Uth': tot(osc_eth(nu4, T4)),
           'S': tot(osc_s(nu4, T4)), 'Fvib': tot(osc_fvib(nu4, T4)),
           'Cv': tot(osc_cv(nu4, T4))}
    # magnitude of the summed terms, for tolerances
    out['Fscale'] = tot(np.abs(osc_fvib(nu4, T4) - osc_zpe(nu4)) +
                        osc_zpe(nu4))
    return out
