"""Random quasi-harmonic cases: model document -> real run -> SI tables."""
import ctypes
import os

import numpy as np

from vlib import gen, qmodel, ref


def threads(n):
    """Set the OpenMP thread count of this process."""
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(int(n))


def grids(rng, u, tmax, pmax, many):
    """(trange, prange) in the units of u, inside (tmax K, pmax GPa)."""
    nt = int(rng.integers(50, 62)) if many else int(rng.integers(1, 12))
    step = float(np.round(tmax / max(nt - 1, 1), 2)) if nt > 1 else 10.0
    step = max(0.5, np.floor(step * 4) / 4)
    lo = 0.0 if rng.random() < 0.5 else float(np.round(rng.uniform(0, 40), 1))
    lo = min(lo, max(0.0, tmax - step * (nt - 1)))
    off = -273.15 if u['temperature_unit'] == 'C' else 0.0
    tr = (lo + off, lo + off + step * (nt - 1), step)
    npr = int(gen.pick(rng, (1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 13)))
    if nt < 13 and rng.random() < 0.12:
        npr = int(rng.integers(30, 70))
    k = 10.0 if u['pressure_unit'] == 'kbar' else 1.0
    ps = max(0.01, np.floor(pmax / max(npr - 1, 1) * 20) / 20)
    pr = (0.0, ps * (npr - 1) * k, ps * k)
    how = rng.random()
    if how < 0.25:       # odd decimals, not starting from zero
        p0 = np.round(rng.uniform(0, 0.2) * pmax, 4)
        ps = max(1e-4, np.floor(0.8 * pmax / max(npr - 1, 1) * 1e4) / 1e4)
        ps = ps if rng.random() < 0.7 else 0.0013
        if rng.random() < 0.5:   # pressures close to ambient
            p0 = float(gen.pick(rng, (0.0, 0.0, 1e-4)))
            ps = float(gen.pick(rng, (1e-4, 5e-4, 1e-3, 4e-3)))
        pr = (p0 * k, (p0 + ps * (npr - 1)) * k, ps * k)
    elif how < 0.5:      # tension: the volume samples extend far enough
        p0 = -max(0.01, np.round(0.15 * pmax, 2))
        pr = (p0 * k, (p0 + ps * (npr - 1)) * k, ps * k)
    return tr, tuple(float(x) for x in pr)


class Case:
    pass


def build(ctx, rng, noise=0.0, many=None, scheme=None, mini=None, eos=None,
          edeg=None, fdeg=None, model=None, u=None, name='q.yaml'):
    c = Case()
    if model is None:
        c.m, c.u, c.vols, c.tmax, c.pmax = qmodel.model_setup(rng)
    else:
        c.m, c.u, c.vols, c.tmax, c.pmax = model
    if u:
        c.u = u
    many = rng.random() < 0.5 if many is None else many
    c.tr, c.pr = grids(rng, c.u, c.tmax, c.pmax, many)
    c.scheme = scheme or gen.pick(rng, ('td', 'freq'))
    c.mini = mini or gen.pick(rng, ('poly', 'eos'))
    c.eos = eos or gen.pick(rng, qmodel.EOS)
    c.edeg = edeg or int(gen.pick(rng, (2, 3, 4, 5)))
    c.fdeg = fdeg or int(gen.pick(rng, (2, 3, 4, 5)))
    c.edeg = min(c.edeg, len(c.vols) - 2)
    c.fdeg = min(c.fdeg, len(c.vols) - (1 if fdeg else 2))
    c.d = c.m.document(c.u, c.vols)
    if noise:
        c.d['energy'] = np.asarray(c.d['energy']) + noise * \
            ref.HA / ref.ENERGY_J[c.u['energy_unit']] * \
            rng.standard_normal(len(c.vols))
    if rng.random() < 0.2:
        # volumes as listed: any order
        o = rng.permutation(len(c.vols))
        for k in ('volume', 'energy'):
            c.d[k] = np.asarray(c.d[k])[o]
        c.d['freq'] = c.d['freq'][:, :, o]
    c.path = gen.write_qha(os.path.join(ctx.workdir, name), c.d)
    c.s = settings(c)
    ctx.describe(units=c.u, trange=c.tr, prange=c.pr, scheme=c.scheme,
                 mini=c.mini, eos=c.eos, edeg=c.edeg, fdeg=c.fdeg,
                 noise=noise, model=c.m.eos, law=c.m.law, nat=c.m.nat,
                 nq=c.m.nq, nvol=len(c.vols))
    return c


def settings(c, **kw):
    a = dict(scheme=c.scheme, mini=c.mini, eos=c.eos, edeg=c.edeg,
             fdeg=c.fdeg)
    a.update(kw)
    return qmodel.settings(c.u, c.tr, c.pr, **a)


def execute(ctx, c, may_fail=False):
    c.route = qmodel.Route(*qmodel.si_document(c.d, c.u), c.scheme, c.mini,
                           c.eos, c.edeg, c.fdeg)
    c.calc = qmodel.run(ctx, c.path, c.s, may_fail)
    if not c.calc.completed:
        return None
    c.r = qmodel.si_tables(c.calc, c.u)
    c.T, c.P = c.r['T'], c.r['P']
    ctx.count('state_points', len(c.T) * len(c.P))
    return c


KEYS = ('VT', 'KT', 'Kp', 'Uzp', 'Uth', 'Fvib', 'S', 'Cv', 'F', 'Utot', 'H',
        'G', 'alphaV', 'Cp', 'Cp-Cv', 'KS', 'gruneisen')


def agree(ctx, a, b, tag):
    """All tables of two runs of the same crystal agree to fit rounding.

    vn is the relative repeatability of a fitted volume; derived quantities
    get the error that propagates from it."""
    x, y = a.r, b.r
    eos = a.mini == 'eos'
    vn, kn = (1e-5, 2e-2) if eos else (1e-8, 2e-4)
    kb = ref.KB * 3 * a.m.nat
    ae = np.abs(x['F'])
    fs = np.abs(x['Fvib']) + x['Uzp'] + np.abs(x['Uth'])
    V, K, Cv, al = x['VT'], np.abs(x['KT']), x['Cv'], np.abs(x['alphaV'])
    T = np.asarray(a.T)[:, None] + 0 * V
    dT = np.diff(a.T).min() if len(a.T) > 1 else 1.0
    an = vn / dT
    alm = al + an
    eps = 1e-12 * ae
    lim = {
        'VT': vn * V, 'KT': kn * K, 'Kp': 0.2 + 0 * V,
        'Uzp': 10 * vn * fs, 'Uth': 10 * vn * fs, 'Fvib': 10 * vn * fs,
        'S': 10 * vn * (kb + x['S']), 'Cv': 10 * vn * kb + 0 * V,
        'F': vn * K * V + eps, 'Utot': vn * (K * V + 10 * fs) + eps,
        'H': vn * (K * V + 10 * fs) + eps, 'G': vn * (K * V) + eps,
        'alphaV': an + 10 * vn * al}
    d = V * K * T * (2 * alm * an + kn * al**2)
    lim['Cp-Cv'] = d
    lim['Cp'] = d + lim['Cv']
    ok = Cv > 1e-3 * kb
    with np.errstate(all='ignore'):
        lim['KS'] = kn * K + d * K / Cv * 2 + \
            al**2 * V * T * K**2 / Cv * (lim['Cv'] / Cv)
        lim['gruneisen'] = V * K / Cv * (an + kn * al) + \
            al * V * K / Cv * (lim['Cv'] / Cv)
    for k in KEYS:
        A, B, t = x[k], y[k], lim.get(k)
        ctx.expect(A.shape == B.shape, tag + k, 'shapes differ')
        if k == 'Uzp' and A.shape != V.shape:
            t = np.ravel(t)[:A.size].reshape(A.shape)
        if k in ('KS', 'gruneisen'):
            A, B, t = A[ok], B[ok], t[ok]
        ctx.close(B, A, tag + k, 1.0, scale=t, msg=k)
