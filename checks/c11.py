"""C11: EoS fits recover parameters and honour the data weights."""
import os

import numpy as np

from vlib import cli, eosref as er
from vlib.core import Group

PROPERTY = 'C11'
RULE = ('pressure-volume and pressure-length data generated from every '
        'formulation and order with independent forms; random sizes, ranges, '
        'row orders, guesses, fixed parameters and uncertainty columns '
        'through EOS.fit and the interactive eosfit session; parameters, '
        'standard errors and covariances against effective-variance '
        'regression; shifts by one displaced point against its weight; '
        'repeated fits on one object; non-trivial = distinct (formulation, '
        'order, axial, weights, fixed, entry)')
MIN = {'distinct': 150, 'fits': 1500, 'weighted': 250, 'sessions': 30, 'several': 25,
       'shifts': 150}
ASSUMPTIONS = ["starting guesses within 15 % (K0), 10 % (K', K'') and "
               '2 % (V0) of the truth, or those of the program',
               'uncertainties on V alone enter with unit uncertainty on P '
               '(orthogonal distance regression); on P alone as ordinary '
               'weighted least squares',
               'a scatter small enough for first-order error propagation']
COMBOS = [(n, o, l) for n in er.NAMES for o in er.ORDERS[n]
          for l in (False, True)]


class Data:
    def __init__(self, rng, name, order, linear, n=None):
        self.name, self.order, self.linear = name, order, linear
        K, Kp, Kpp, V0 = er.parameters(rng, name, order, linear)
        self.p = np.array([K, Kp, Kpp, V0])
        n = n or int(rng.integers(8, 26) if rng.random() < 0.93 else
                     rng.integers(60, 150))
        comp = rng.uniform(0.10, 0.25) / (3 if linear else 1)
        # most data are compressed; some reach well into tension
        top = 0.1 if rng.random() < 0.7 else rng.uniform(0.1, 0.4)
        y = 1 + comp * np.sort(np.concatenate((
            [-1, top], rng.uniform(-1, top, n - 2))))[::-1]
        self.V = V0 * y
        self.P = self.pressure(self.p, self.V)
        self.free = [True, order > 2, order > 3, True]
        self.n = n

    def pressure(self, p, V):
        return er.pressure(self.name, p[0], p[1], p[2], p[3], V)

    def full(self, q, fixed):
        """Parameters in force for values q of the free ones."""
        p = self.p.copy()
        p[fixed] = q
        p[1], p[2] = er.implied(self.name, self.order, self.linear, *p[:3])
        return p

    def jacobian(self, free, V=None):
        """dP/d(free parameters) at the truth, by central differences."""
        V = self.V if V is None else V
        cols = []
        for k in np.flatnonzero(free):
            h = 1e-5 * max(abs(self.p[k]), 1e-4)
            ab = []
            for s in (1, -1):
                p = self.p.copy()
                p[k] += s * h
                p[1], p[2] = er.implied(self.name, self.order, self.linear,
                                        *p[:3])
                ab.append(self.pressure(p, V))
            cols.append((ab[0] - ab[1]) / (2 * h))
        return np.column_stack(cols)

    def slope(self):
        h = 1e-6 * self.V
        return (self.pressure(self.p, self.V + h) -
                self.pressure(self.p, self.V - h)) / (2 * h)


def eos_object(name):
    from quantas.eosfit.utils import pv_eos
    return getattr(pv_eos, name)()


def guess(rng, d, how):
    g = d.p * (1 + np.array([0.15, 0.1, 0.1, 0.02 / (3 if d.linear else 1)])
               * rng.uniform(-1, 1, 4))
    if d.order == 2:
        g[1] = d.p[1]
    return [list(g), g, tuple(g)][how % 3]


def tolerances(d, free):
    """Conditioning of the recovery: relative error of the fit."""
    J = d.jacobian(free) * np.abs(d.p[np.flatnonzero(free)])
    return 1e-8 * np.sqrt(np.linalg.norm(d.P)**2 / d.n) / \
        np.linalg.svd(J)[1][-1]


def run(ctx, eos, d, **kw):
    V, P = kw.pop('V', d.V), kw.pop('P', d.P)
    keep = {k: np.array(v, copy=True) for k, v in kw.items()
            if k in ('guess', 'sigmaV', 'sigmaP') and v is not None}
    a, b = V.copy(), P.copy()
    out = eos.fit(V, P, order=d.order, linear=d.linear, **kw)
    ctx.count('fits')
    ctx.same(V, a, 'input:V', 'volumes changed by the fit')
    ctx.same(P, b, 'input:P', 'pressures changed by the fit')
    for k in keep:
        ctx.same(np.array(kw[k]), keep[k], 'input:' + k, k + ' changed')
    return out


def label(d):
    return '%s%d%s' % (d.name, d.order, ':axial' if d.linear else '')


def recover(ctx, beta, d, free, key, tol=None):
    t = max(1e-6, min(tolerances(d, free), 1e-2)) if tol is None else tol
    scale = np.abs(d.p)
    scale[2] = max(scale[2], abs(d.p[1] / d.p[0]))
    ctx.close(np.asarray(beta), d.p, key, 0, msg='fitted parameters %s' %
              label(d), atol=0, scale=None) if t == 0 else \
        ctx.close(np.asarray(beta) / scale, d.p / scale, key, 0, t,
                  'fitted parameters (relative) of ' + label(d))


def exact(ctx, rng, i):
    d = Data(rng, *COMBOS[i % len(COMBOS)])
    ctx.describe(eos=label(d), p=d.p, V=d.V, P=d.P)
    eos = eos_object(d.name)
    out = run(ctx, eos, d)
    recover(ctx, out.beta, d, d.free, 'exact')
    again = run(ctx, eos, d)
    ctx.same(again.beta, out.beta, 'repeat', 'second fit on one object')
    ctx.same(again.sd_beta, out.sd_beta, 'repeat', 'errors of the second fit')
    fresh = run(ctx, eos_object(d.name), d)
    ctx.same(fresh.beta, out.beta, 'repeat', 'fit on a fresh object')
    # starting guess
    g = guess(rng, d, i)
    recover(ctx, run(ctx, eos, d, guess=g).beta, d, d.free, 'guess')
    # what the session passes for free parameters
    fix = [1 if f else 0 for f in d.free]
    recover(ctx, run(ctx, eos, d, guess=g, fixed=fix).beta, d, d.free,
            'fixed:implied')
    out = run(ctx, eos, d, guess=list(g), fixed=[1, 1, 1, 1])
    recover(ctx, out.beta, d, d.free, 'fixed:none')
    # row order
    for o in (np.arange(d.n)[::-1], rng.permutation(d.n)):
        recover(ctx, run(ctx, eos, d, V=d.V[o], P=d.P[o]).beta, d, d.free,
                'order')
    # a known parameter kept fixed at its true value
    for k in (0, 1, 2, 3):
        if not d.free[k] or sum(d.free) < 2:
            continue
        f = list(d.free)
        f[k] = False
        g = np.array(guess(rng, d, 0))
        g[k] = d.p[k]
        out = run(ctx, eos, d, guess=list(g), fixed=[int(x) for x in f])
        recover(ctx, out.beta, d, f, 'fixed')
        ctx.same(float(out.beta[k]), float(d.p[k]), 'fixed:value',
                 'fixed parameter %d moved' % k)
    # uncertainties do not move exact data
    sP = np.abs(d.P).max() * 1e-3 * rng.uniform(0.2, 5, d.n)
    sV = d.V * 1e-4 * rng.uniform(0.2, 5, d.n)
    for a, b in ((sV, None), (None, sP), (sV, sP)):
        out = run(ctx, eos, d, guess=guess(rng, d, 1), sigmaV=a, sigmaP=b)
        recover(ctx, out.beta, d, d.free, 'weights:exact', max(
            1e-4, tolerances(d, d.free) * 100) if a is not None else None)
    ctx.nontrivial('exact', label(d), d.n, round(d.p[0], 3))


def weights(ctx, rng, i):
    """First-order response of the fit to a small scatter."""
    d = Data(rng, *COMBOS[i % len(COMBOS)], n=int(rng.integers(9, 20)))
    how = (i // len(COMBOS)) % 4
    eos = eos_object(d.name)
    scale = np.abs(d.P).max()
    sP = scale * 10**(rng.choice([-4., -3., -3.]) + rng.uniform(
        -1, 1, d.n)) if how & 1 else None
    sV = d.V * 10**(rng.choice([-5.5, -4., -4.]) + rng.uniform(
        -1, 1, d.n)) if how & 2 else None
    ctx.describe(eos=label(d), p=d.p, V=d.V, P=d.P, sigmaV=sV, sigmaP=sP)
    J = d.jacobian(d.free)
    idx = np.flatnonzero(d.free)
    # effective variance
    var = np.ones(d.n) if sP is None else sP**2
    if sV is not None:
        var = var + (d.slope() * sV)**2
    W = 1 / var
    N = J.T @ (W[:, None] * J)
    cov = np.linalg.inv(N)
    sd = np.sqrt(np.diag(cov))
    corr = cov / np.outer(sd, sd)
    if np.linalg.cond(corr) > 1e6:
        ctx.count('ill_conditioned')
        return
    kw = dict(guess=list(d.p), sigmaV=sV, sigmaP=sP,
              fixed=[int(f) for f in d.free])
    # scatter small against the curvature of the model
    e = rng.normal(size=d.n) * np.sqrt(var)
    lin = cov @ (J.T @ (W * e))
    e *= 3e-4 / np.max(np.abs(lin) / np.abs(d.p[idx]))
    e *= min(1, 1e-3 * scale / np.abs(e).max())
    lin = cov @ (J.T @ (W * e))
    out = run(ctx, eos, d, P=d.P + e, **kw)
    got = out.beta[idx] - d.p[idx]
    s = np.sqrt(np.diag(cov) * np.sum(W * e**2) / d.n)
    key = 'response:%s%s' % ('V' if sV is not None else '',
                             'P' if sP is not None else '')
    # the fit sits where the weighted regression says
    ctx.close((got - lin) / s, np.zeros(len(idx)), key, 0, 0.1,
              'shift of the parameters against weighted regression, in '
              'standard errors, of ' + label(d))
    # ... from whatever it started
    own = run(ctx, eos, d, P=d.P + e, sigmaV=sV, sigmaP=sP)
    ctx.close((own.beta[idx] - d.p[idx] - lin) / s, np.zeros(len(idx)),
              key + ':start', 0, 0.1, 'shift of the parameters from the '
              'own starting values, in standard errors, of ' + label(d))
    r = e - J @ lin
    chi = np.sum(W * r * r)
    dof = d.n - len(idx)
    ctx.close(out.res_var, chi / dof, key + ':variance', 0.1,
              msg='residual variance of ' + label(d))
    ctx.close(np.asarray(out.sd_beta)[idx], np.sqrt(
        np.diag(cov) * chi / dof), key + ':errors', 0.1,
        msg='standard errors of ' + label(d))
    got = np.asarray(out.cov_beta)[np.ix_(idx, idx)] / np.outer(sd, sd)
    ctx.close(got, corr, key + ':covariance', 0, 0.05, 'scaled covariance')
    if sV is not None or sP is not None:
        ctx.count('weighted')
    # three times the scatter, three times the errors
    o3 = run(ctx, eos, d, P=d.P + 3 * e, **kw)
    ctx.close(np.asarray(o3.sd_beta)[idx] / np.asarray(out.sd_beta)[idx],
              np.full(len(idx), 3.), key + ':scaling', 0.05,
              msg='errors for three times the scatter')
    # one displaced point: less influence the less certain it is
    if sP is not None and sV is None:
        k = int(rng.integers(0, d.n))
        shifts = []
        for f in (0.3, 1.0, 10.0):
            s2 = sP.copy()
            s2[k] *= f
            P = d.P.copy()
            P[k] += 1e-4 * scale
            o = run(ctx, eos, d, P=P, **dict(kw, sigmaP=s2))
            shifts.append(abs(o.beta[0] - d.p[0]))
            ctx.count('shifts')
        w = [1 / (np.array([f * sP[k]])**2) for f in (0.3, 1, 10)]
        ctx.expect(shifts[0] >= shifts[2] * (1 - 1e-3) -
                       1e-7 * d.p[0], 'influence',
                   'shift of K0 by one point %s for its uncertainty times '
                   '0.3, 1, 10' % (shifts,))
        del w
    if sV is not None:
        k = int(rng.integers(1, d.n))
        shifts = []
        for f in (0.3, 1.0, 30.0):
            s2 = sV.copy()
            s2[k] *= f
            P = d.P.copy()
            P[k] += 1e-5 * scale
            o = run(ctx, eos, d, P=P, **dict(kw, sigmaV=s2))
            shifts.append(abs(o.beta[0] - d.p[0]))
            ctx.count('shifts')
        if abs(d.P[k]) > 0.05 * scale and sP is not None:
            ctx.expect(shifts[0] >= shifts[2] * (1 - 1e-2) -
                       1e-7 * d.p[0], 'influence:V',
                       'shift of K0 %s for a volume uncertainty times 0.3, '
                       '1, 30' % (shifts,))
    ctx.nontrivial('weights', label(d), how)


COL = {'v': 'V', 'a': 'a', 'b': 'b', 'c': 'c'}


def session(ctx, rng, i):
    """The interactive command on exact data."""
    wd = cli.fresh(ctx)
    name, order, linear = COMBOS[i % len(COMBOS)]
    d = Data(rng, name, order, linear)
    col = str(rng.choice(['a', 'b', 'c'])) if linear else 'v'
    cols = ['P', COL[col]]
    data = [d.P, d.V]
    which = (i // len(COMBOS)) % 4
    if which & 1:
        cols.append('sigmaP')
        data.append(np.abs(d.P).max() * 1e-3 * rng.uniform(0.2, 5, d.n))
    if which & 2:
        cols.append('sigma' + COL[col])
        data.append(d.V * 1e-4 * rng.uniform(0.2, 5, d.n))
    o = rng.permutation(d.n) if i % 2 else np.arange(d.n)
    with open(os.path.join(wd, 'd.dat'), 'w') as f:
        f.write('JOB\nexact data\nFORMAT\n%s\nDATA\n' % ' '.join(cols))
        for r in np.column_stack(data)[o]:
            f.write(' '.join('%.15e' % x for x in r) + '\n')
    ctx.describe(eos=label(d), p=d.p, columns=cols)
    fix = bool(rng.random() < 0.3)
    modify = fix or bool(rng.random() < 0.3)
    ans = [col, er.KEY[name], str(order), 'y' if modify else 'n']
    if modify:
        ans += ['%.15e' % x for x in d.p]
    ans.append('y' if fix else 'n')
    if fix:
        # K'' and K' as implied, V0 known
        ans += ['n', 'n' if d.free[1] else 'y', 'n' if d.free[2] else 'y',
                'y']
    if which:
        use = bool(rng.random() < 0.7)
        ans.append('y' if use else 'n')
        if use:
            ans += ['y'] * (1 if which < 3 else 2)
    ans += ['n', 'n', 'n']
    out = cli.must(ctx, ['eosfit', 'd.dat'], '\n'.join(ans) + '\n', cwd=wd,
                   key='session')
    log = open(os.path.join(wd, 'd.log'), encoding='utf8').read()
    part = log[log.index('Fitting parameters:'):]
    part = part[:part.index('Covariance')]
    beta = []
    for line in part.splitlines()[1:]:
        if '=' in line and '+/-' in line:
            beta.append(float(line.split('=')[1].split('+/-')[0]))
    ctx.expect(len(beta) == 4, 'session:report', part)
    t = max(1e-5, min(tolerances(d, d.free), 1e-2)) * 100 if which & 2 \
        else max(1e-6, min(tolerances(d, d.free), 1e-2))
    scale = np.abs(d.p)
    scale[2] = max(scale[2], abs(d.p[1] / d.p[0]))
    ctx.close(np.array(beta), d.p, 'session:parameters', t, 0.6e-5,
              'parameters reported by the session for ' + label(d),
              scale=scale)
    ctx.count('sessions')
    ctx.nontrivial('session', label(d), cols, fix)


def matching(rng, P, name, order, linear):
    """Parameters and lengths with exactly those pressures."""
    from scipy.optimize import brentq
    e = Data(rng, name, order, linear)
    lo, hi = e.V.min(), e.V.max()
    try:
        e.V = np.array([brentq(lambda x: float(e.pressure(e.p, x)) - y, lo,
                               hi, xtol=1e-13 * hi, rtol=1e-14) for y in P])
    except ValueError:
        return None
    e.P, e.n = P, len(P)
    return e


def several(ctx, rng, i):
    """One session over the volume and the axes, in any order."""
    wd = cli.fresh(ctx)
    name = er.NAMES[i % 5]
    order = 3
    d = Data(rng, name, order, False)
    o = rng.permutation(d.n) if i % 2 else np.arange(d.n)
    d.V, d.P = d.V[o], d.P[o]
    data = {'v': d}
    for c in 'abc':
        while c not in data:
            e = matching(rng, d.P, name, order, True)
            if e is not None:
                data[c] = e
    with open(os.path.join(wd, 'd.dat'), 'w') as f:
        f.write('JOB\nexact data\nFORMAT\nP V a b c\nDATA\n')
        for r in np.column_stack([d.P] + [data[c].V for c in 'vabc']):
            f.write(' '.join('%.15e' % x for x in r) + '\n')
    ctx.describe(eos=label(d), p={c: e.p for c, e in data.items()})
    cols = list(rng.permutation(list('vabc')))[:int(rng.integers(2, 5))]
    if rng.random() < 0.5:
        cols.append(cols[0])
    ans = []
    for k, c in enumerate(cols):
        # no changes; parameters updated or not, other data
        ans += [str(c), er.KEY[name], str(order), 'n', 'n',
                'y' if rng.random() < 0.5 else 'n', 'n',
                'y' if k < len(cols) - 1 else 'n']
    cli.must(ctx, ['eosfit', 'd.dat'], '\n'.join(ans) + '\n', cwd=wd,
             key='several')
    log = open(os.path.join(wd, 'd.log'), encoding='utf8').read()
    parts = log.split('Fitting parameters:')[1:]
    ctx.expect(len(parts) == len(cols), 'several:reports', '%d reports of %d '
               'fits' % (len(parts), len(cols)))
    for c, part in zip(cols, parts):
        e = data[str(c)]
        beta = [float(l.split('=')[1].split('+/-')[0])
                for l in part[:part.index('Covariance')].splitlines()
                if '=' in l and '+/-' in l]
        t = max(1e-6, min(tolerances(e, e.free), 1e-2)) * 100
        scale = np.abs(e.p)
        scale[2] = max(scale[2], abs(e.p[1] / e.p[0]))
        ctx.close(np.array(beta), e.p, 'several:parameters', t, 0.6e-5,
                  'fit %r of %s %s' % (cols, c, label(e)), scale=scale)
        ctx.count('several')
    ctx.nontrivial('several', label(d), cols)


def groups(tier):
    k = 1 if tier == 'quick' else 25
    c = len(COMBOS)
    return [Group('exact', 6 * c * k, exact),
            Group('weights', 16 * c * k, weights),
            Group('session', 4 * c * k, session),
            Group('several', 40 * k, several)]
