"""C08: every route recovers the exact model crystal."""
import os

import numpy as np

from vlib import gen, qcase, qmodel, ref
from vlib.core import Group

PROPERTY = 'C08'
RULE = ('model crystals with exactly known F(V,T), sampled at 8-13 volumes '
        'within about +-6 %, run through all scheme x minimisation routes '
        'they can represent (degree >= 4, matching equation of state), in '
        'random units; results compared with the exact values, with each '
        'other, and with reordered / weight-split / re-threaded runs; '
        'frequencies that are polynomials of exactly the fitted degree on '
        '5-9 volumes; '
        'non-trivial = distinct (model, route, units)')
MIN = {'distinct': 40, 'points_vs_exact': 150, 'route_pairs': 30,
       'reorderings': 20, 'thread_pairs': 20, 'exact_degrees': 100, 'extrapolated': 5}
ASSUMPTIONS = ['fitting error allowed: V 2e-4, K_T 3 %, S, Cv and Fvib 1e-3 '
               'of their magnitude']

LIM = {'V': 2e-4, 'K': 0.03, 'X': 1e-3}


def setup(rng):
    while True:
        m, u, vols, tmax, pmax = qmodel.model_setup(
            rng, int(rng.integers(8, 14)))
        span = vols[-1] / vols[0] - 1
        if span < 0.14:
            # regularly spaced samples
            return m, u, np.linspace(vols[0], vols[-1], len(vols)), tmax, pmax


def exact(m, T, P):
    V = m.volume(T, P)
    t = m.thermo([V], [T])
    out = {k: t[k][0, 0] for k in ('Uzp', 'Uth', 'S', 'Fvib', 'Cv')}
    out['V'], out['K'] = V, m.KT([V], T)[0]
    out['static'] = float(m.static(V))
    return out


def compare(ctx, c, i, j, e, tag):
    r = c.r
    g = {k: r[k][i, j] for k in ('Uzp', 'Uth', 'S', 'Fvib', 'Cv', 'F',
                                 'Utot')}
    kb = ref.KB * 3 * c.m.nat
    kt = ref.KB * 3 * c.m.nat * max(c.T[i], 100.)
    ctx.close(r['VT'][i, j], e['V'], tag + 'V', LIM['V'],
              msg='volume at T=%g P=%g' % (c.T[i], c.P[j]))
    ctx.close(r['KT'][i, j], e['K'], tag + 'KT', LIM['K'],
              msg='KT at T=%g P=%g' % (c.T[i], c.P[j]))
    sc = e['Uzp'] + kt
    for k in ('Uzp', 'Uth', 'Fvib'):
        ctx.close(g[k], e[k], tag + k, 0, LIM['X'] * sc, k)
    for k in ('S', 'Cv'):
        ctx.close(g[k], e[k], tag + k, 0, LIM['X'] * kb * 3, k)
    # static part at the slightly different volume
    ctx.close(g['F'] - g['Fvib'], e['static'], tag + 'U0', 1e-12,
              LIM['V'] * c.m.K0 * c.m.V0 * 0.2, 'static energy at V(T,P)')
    ctx.count('points_vs_exact')


ROUTES = (('td', 'poly'), ('td', 'eos'), ('freq', 'poly'), ('freq', 'eos'))


def case_exact(ctx, rng, i):
    model = setup(rng)
    u = model[1]
    deg = int(gen.pick(rng, (4, 4, 5)))
    # quadratic frequencies are represented by any degree from 2 on
    fdeg = int(gen.pick(rng, (2, 3, 4, 5) if model[0].law == 'quadratic'
                        else (4, 5)))
    base = qcase.build(ctx, rng, model=model, u=u, many=False, scheme='td',
                       mini='poly', edeg=deg, fdeg=fdeg, eos=model[0].eos)
    runs = []
    for scheme, mini in ROUTES:
        base.scheme, base.mini = scheme, mini
        base.s = qcase.settings(base)
        c = qcase.Case()
        c.__dict__.update(base.__dict__)
        qcase.execute(ctx, c)
        runs.append(c)
    c = runs[0]
    pts = [(a, b) for a in range(len(c.T)) for b in range(len(c.P))]
    pts = [pts[int(k)] for k in rng.permutation(len(pts))[:5]]
    for a, b in pts:
        e = exact(c.m, c.T[a], c.P[b])
        for (scheme, mini), run in zip(ROUTES, runs):
            compare(ctx, run, a, b, e, '')
    for run in runs[1:]:
        ctx.close(run.r['VT'], c.r['VT'], 'pair:V', 2 * LIM['V'])
        ctx.close(run.r['KT'], c.r['KT'], 'pair:KT', 2 * LIM['K'])
        # G is stationary: agreement to second order in the volume
        ctx.close(run.r['G'], c.r['G'], 'pair:G', 1e-12,
                  1e-6 * c.m.K0 * c.m.V0)
        ctx.count('route_pairs')
    ctx.nontrivial(c.m.eos, c.m.law, deg, fdeg, sorted(u.items()), c.tr, c.pr)


def rerun(ctx, c, d, name):
    r = qcase.Case()
    r.__dict__.update(c.__dict__)
    r.d = d
    r.path = gen.write_qha(os.path.join(ctx.workdir, name), d)
    return qcase.execute(ctx, r)


def case_order(ctx, rng, i):
    """Order of q-points, bands and volumes, and split weights do not
    matter."""
    model = setup(rng)
    m = model[0]
    while m.nq < 2:
        model = setup(rng)
        m = model[0]
    c = qcase.build(ctx, rng, model=model, many=False)
    qcase.execute(ctx, c)
    d = dict(c.d)
    d['freq'], d['weights'] = np.array(d['freq']), np.array(d['weights'])
    kind = i % 4
    if kind == 0:
        p = rng.permutation(m.nq)
        d['freq'], d['weights'] = d['freq'][p], d['weights'][p]
    elif kind == 1:
        for q in range(m.nq):
            d['freq'][q] = d['freq'][q][rng.permutation(3 * m.nat)]
    elif kind == 2:
        p = rng.permutation(len(d['volume']))
        if rng.random() < 0.3:
            p = np.arange(len(p))[::-1]
        for k in ('volume', 'energy'):
            d[k] = np.asarray(d[k])[p]
        d['freq'] = d['freq'][:, :, p]
    else:
        q = int(rng.integers(m.nq))
        f = rng.uniform(0.2, 0.8)
        d['freq'] = np.concatenate([d['freq'], d['freq'][q:q + 1]])
        w = d['weights'][q]
        d['weights'] = np.append(d['weights'], w * (1 - f))
        d['weights'][q] = w * f
    r = rerun(ctx, c, d, 'order.yaml')
    qcase.agree(ctx, c, r, 'order:')
    ctx.count('reorderings')
    ctx.nontrivial('order', kind, c.scheme, c.mini, sorted(c.u.items()))


def case_threads(ctx, rng, i):
    """Bit-identical results for any number of threads."""
    c = qcase.build(ctx, rng, many=bool(i % 2))
    try:
        qcase.threads(1)
        qcase.execute(ctx, c)
        for n in (2, 3, 8):
            r = qcase.Case()
            r.__dict__.update(c.__dict__)
            qcase.threads(n)
            qcase.execute(ctx, r)
            for k in c.calc.results:
                ctx.same(np.asarray(r.calc.results[k]),
                         np.asarray(c.calc.results[k]), 'threads:' + k,
                         '%s with %d threads' % (k, n))
            ctx.count('thread_pairs')
    finally:
        qcase.threads(2)
    ctx.nontrivial('threads', c.scheme, c.mini, sorted(c.u.items()), c.tr)


class Wavy(qmodel.Model):
    """Frequencies that are polynomials of exactly the chosen degree."""

    def __init__(self, rng, deg):
        qmodel.Model.__init__(self, rng, law='quadratic')
        self.nu0 = np.abs(self.nu0)
        self.deg, self.lo, self.hi = deg, None, None
        self.amp = 3e-5 * (1 if rng.random() < 0.5 else -1)

    def freq(self, V):
        f = qmodel.Model.freq(self, V)
        if self.lo is None:
            return f
        x = (2 * np.atleast_1d(V) - self.lo - self.hi) / (self.hi - self.lo)
        t = np.polynomial.chebyshev.Chebyshev.basis(self.deg)(x)
        return f + self.nu0[:, :, None] * self.amp * t


def case_degree(ctx, rng, i):
    """Polynomial frequencies are represented exactly by a fit of their
    degree, on as few volumes as determine it."""
    fdeg = 3 + i % 3
    m = Wavy(rng, fdeg)
    u = qmodel.units(rng)
    tmax, pmax = 600., float(np.round(0.02 * m.K0 / 1e9, 1))
    lo, hi = m.volume(0.0, pmax * 1e9), m.volume(tmax, 0.0)
    pad = 0.25 * (hi - lo) + 0.01 * m.V0
    if i % 4 == 3:
        # conditions beyond the sampled volumes
        pad = -rng.uniform(0.05, 0.3) * (hi - lo)
    n = fdeg + 1 + int(rng.integers(0, 4))
    vols = np.linspace(lo - pad, hi + pad, n)
    m.lo, m.hi = vols[0], vols[-1]
    c = qcase.build(ctx, rng, model=(m, u, vols, tmax, pmax), many=False,
                    scheme='freq', fdeg=fdeg, edeg=min(3, n - 2))
    if qcase.execute(ctx, c, may_fail=True) is None:
        return
    seen = 0
    for a in range(len(c.T)):
        for b in range(len(c.P)):
            V, lim = c.r['VT'][a, b], 2e-6
            if not m.lo <= V <= m.hi:
                if abs(2 * V - m.lo - m.hi) > 1.8 * (m.hi - m.lo):
                    continue
                ctx.count('extrapolated')
                # rounding of the fit grows as the highest polynomial
                lim *= np.cosh(fdeg * np.arccosh(
                    abs(2 * V - m.lo - m.hi) / (m.hi - m.lo)))
            t = m.thermo([V], [c.T[a]])
            sc = t['Uzp'][0, 0] + ref.KB * 3 * m.nat * c.T[a]
            for k in ('Uzp', 'Uth', 'Fvib', 'S', 'Cv'):
                ctx.close(c.r[k][a, b], t[k][0, 0], 'degree:' + k, 0,
                          lim * (sc if k[0] in 'UF' else
                                  ref.KB * 3 * m.nat), k)
            seen += 1
    ctx.count('exact_degrees', seen)
    ctx.nontrivial('degree', fdeg, n, c.mini, sorted(u.items()))


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('exact', 12 * k, case_exact),
            Group('order', 48 * k, case_order),
            Group('degree', 36 * k, case_degree),
            Group('threads', 8 * k, case_threads)]
