"""Calls to every compiled kernel, with independent reference values.

Runs inside the instrumented interpreter:

    python -m vlib.native.kernels '{"mode":.., "seed":.., "cases":.., ...}'

and writes what it observed to the file spec['out'].  A crash or a sanitizer
report is the parent's business; wrong numbers are collected here.
"""
import ctypes
import json
import os
import sys
import threading

import numpy as np

from vlib import ref

NA = ref.NA
SIZES = (0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31)


def dim(rng, top=None):
    n = int(SIZES[int(rng.integers(len(SIZES)))])
    return min(n, top) if top is not None else n


def temps(rng, n):
    T = rng.uniform(0, 1500, n)
    T[rng.random(n) < 0.2] = 0.
    T[rng.random(n) < 0.1] = 1e-3
    return T


def bands(rng, shape):
    f = 10**rng.uniform(9, 14.2, shape)
    f[rng.random(shape) < 0.1] = 0.
    f[rng.random(shape) < 0.1] *= -1.
    return f


def tot(fn, T, f, w):
    out = np.zeros((len(T), f.shape[2]))
    mag = np.zeros_like(out)
    for i, t in enumerate(T):
        v = fn(f, t) * w[:, None, None]
        out[i] = v.sum(axis=(0, 1))
        mag[i] = np.abs(v).sum(axis=(0, 1))
    return out * NA, mag * NA


def spectral(name, fn, kilo):
    def make(rng):
        nt, nb, nf, nv = dim(rng), dim(rng, 9), dim(rng, 9), dim(rng)
        T, f = temps(rng, nt), bands(rng, (nb, nf, nv))
        w = rng.uniform(0, 2, nb)

        def want():
            v, m = tot(fn, T, f, w)
            # the scale is that of the energies that cancel
            m += tot(lambda g, t: (ref.osc_zpe(g) + ref.KB * max(t, 1.))
                     if kilo else ref.KB + 0. * g, T, f, w)[0]
            k = 1e-3 if kilo else 1.
            return v * k, m * k
        return [T, f, w], want, [0]
    return name, make


def arr(rng, *shape):
    return rng.normal(size=shape) * 10**rng.uniform(-3, 3)


def internal_energy(rng):
    nt, nv = dim(rng), dim(rng)
    a = [arr(rng, nv), arr(rng, nv), arr(rng, nt, nv)]
    return a, lambda: (a[0] + a[1] + a[2],
                       np.abs(a[0]) + np.abs(a[1]) + np.abs(a[2])), [2]


def free_energy(rng):
    nt, nv = dim(rng), dim(rng)
    a = [arr(rng, nv), arr(rng, nt, nv)]
    return a, lambda: (a[0] + a[1], np.abs(a[0]) + np.abs(a[1])), [1]


def pv(rng):
    n, m = dim(rng), dim(rng)
    a = [np.abs(arr(rng, n, m)) * 1e-29, arr(rng, m) * 1e9, arr(rng, n, m)]

    def want():
        t = a[1] * a[0] * NA / 1000.
        return a[2] + t, np.abs(a[2]) + np.abs(t)
    return a, want, [0, 2]


def adiabatic(rng):
    n, m = dim(rng), dim(rng)
    T = temps(rng, n)
    V, K = rng.uniform(1e-29, 1e-27, (n, m)), rng.uniform(1e9, 4e11, (n, m))
    al, C = arr(rng, n, m) * 1e-5, rng.uniform(0, 100, (n, m))
    C[rng.random((n, m)) < 0.2] = 0.

    def want():
        with np.errstate(all='ignore'):
            d = al**2 * K**2 * V * T[:, None] / (C / NA)
        d = np.where((T[:, None] == 0) | (C == 0), 0., d)
        return K + d, np.abs(K) + np.abs(d)
    return [T, V, K, al, C, 1.], want, [0, 1, 2, 3, 4]


def gruneisen(rng):
    n, m = dim(rng), dim(rng)
    V, K = rng.uniform(1e-29, 1e-27, (n, m)), rng.uniform(1e9, 4e11, (n, m))
    al, C = arr(rng, n, m) * 1e-5, rng.uniform(0, 100, (n, m))
    C[rng.random((n, m)) < 0.2] = 0.

    def want():
        with np.errstate(all='ignore'):
            d = V * K * al / (C / NA)
        d = np.where(C == 0, 0., d)
        return d, np.abs(d)
    return [V, K, al, C], want, [0, 1, 2, 3]


def poly_values(c, X):
    v, m = np.zeros((len(c), len(X))), np.zeros((len(c), len(X)))
    for i in range(len(c)):
        for k in range(c.shape[1]):
            t = c[i, k] * X**float(k)
            v[i] += t
            m[i] += np.abs(t)
    return v, m


def interp(rng):
    nv, nc, nx = dim(rng), dim(rng, 9), dim(rng)
    X, c = rng.normal(size=nx) * 3, arr(rng, nv, nc)
    if nx and rng.random() < 0.3:
        X[0] = 0.
    return [X, c], lambda: poly_values(c, X), [1]


def interp_scalar(rng):
    X, c = float(rng.normal() * 3), arr(rng, dim(rng), dim(rng, 9))

    def want():
        v, m = poly_values(c, np.array([X]))
        return v[:, 0], m[:, 0]
    return [X, c], want, [1]


def r2(rng):
    ny, nc, nx = dim(rng), dim(rng, 7), dim(rng)
    X, c = rng.normal(size=nx), arr(rng, ny, nc)
    Y = poly_values(c, X)[0] + arr(rng, ny, nx)
    if ny and rng.random() < 0.3:
        Y[0] = 0.

    def want():
        if nx == 0:
            return np.zeros(ny), np.ones(ny)
        h, m = poly_values(c, X)
        b = Y.mean(axis=1, keepdims=True)
        t = ((Y - b)**2).sum(axis=1)
        s = ((h - b)**2).sum(axis=1)
        with np.errstate(all='ignore'):
            v = np.where(t == 0, 0., s / t)
            # rounding of the differences, and of a vanishing denominator
            g = ((np.abs(h) + m + np.abs(Y) + np.abs(b))**2).sum(axis=1)
            sc = np.where(t == 0, 1., (1 + v) * (1 + g / np.maximum(
                np.minimum(t, np.maximum(s, 1e-300)), 1e-300)))
        bad = (t > 0) & (t < 1e-20 * g)     # pure rounding: any value
        sc = np.where(bad, np.inf, sc)
        return v, sc
    return [X, Y, c], want, [1, 2]


def vector(rng):
    a, b = rng.uniform(-7, 7, 2)
    return [a, b], lambda: (np.array(
        [np.sin(a) * np.cos(b), np.sin(a) * np.sin(b), np.cos(a)]),
        np.ones(3)), None


def cofactor(rng):
    M = arr(rng, 3, 3)

    def want():
        o, m = np.zeros((3, 3)), np.zeros((3, 3))
        for i in range(3):
            for j in range(3):
                r = [k for k in range(3) if k != i]
                c = [k for k in range(3) if k != j]
                p, q = M[r[0], c[0]] * M[r[1], c[1]], \
                    M[r[0], c[1]] * M[r[1], c[0]]
                o[i, j] = (-1)**(i + j) * (p - q)
                m[i, j] = abs(p) + abs(q)
        return o, m
    return [M], want, None


SM = 'quantas.utils.physics.statistical_mechanics'
TD = 'quantas.utils.physics.thermodynamics'
FM = 'quantas.utils.math.fast_math'
KERNELS = [(SM,) + x for x in (
    spectral('zero_point_energy', lambda f, t: ref.osc_zpe(f), True),
    spectral('thermal_energy', ref.osc_eth, True),
    spectral('entropy', ref.osc_s, False),
    spectral('isochoric_heat_capacity', ref.osc_cv, False),
    spectral('vibrational_free_energy', ref.osc_fvib, True),
    ('internal_energy', internal_energy), ('free_energy', free_energy))]
KERNELS += [(TD, 'enthalpy', pv), (TD, 'gibbs', pv),
            (TD, 'adiabatic_bulk_modulus', adiabatic),
            (TD, 'gruneisen_parameter', gruneisen),
            (FM, 'multi_interpolate', interp),
            (FM, 'multi_interpolate', interp_scalar),
            (FM, 'multi_R2', r2), (FM, 'vector', vector),
            (FM, 'cofactor', cofactor)]


def load():
    import importlib
    return [(name, getattr(importlib.import_module(mod), name), make)
            for mod, name, make in KERNELS]


class Seen:
    def __init__(self, out):
        self.counters, self.problems, self.out = {}, [], out
        self.shapes = set()

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + int(n)

    def bad(self, key, msg, args):
        if len(self.problems) < 20:
            self.problems.append([key, msg, [
                np.asarray(a).tolist() if np.asarray(a).size <= 40 else
                'array%s' % (np.shape(a),) for a in args]])

    def save(self, **kw):
        with open(self.out, 'w') as f:
            json.dump(dict(counters=self.counters, problems=self.problems,
                           shapes=sorted(self.shapes), **kw), f)


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and \
        a.tobytes() == b.tobytes()


def judge(seen, name, fn, args, want, rows, first=True):
    """One call with everything but the schedule checked."""
    keep = [np.array(a, copy=True) for a in args]
    got = np.asarray(fn(*args))
    seen.count('calls')
    for a, k in zip(args, keep):
        if not same(np.asarray(a), k):
            seen.bad(name + ':argument', 'an argument was changed', keep)
    again = np.asarray(fn(*args))
    if not same(got, again):
        seen.bad(name + ':repeat', 'two identical calls differ', keep)
    if not first:
        return got
    v, m = want()
    v, m = np.asarray(v, float), np.asarray(m, float)
    if got.shape != v.shape:
        seen.bad(name + ':shape', 'shape %s, expected %s' % (
            got.shape, v.shape), keep)
        return got
    with np.errstate(all='ignore'):
        ok = np.abs(got - v) <= 1e-9 * m
    ok |= np.isinf(m)
    if not np.all(ok):
        i = np.argwhere(~ok)[0].tolist()
        seen.bad(name + ':value', 'entry %s is %r, expected %r' % (
            i, float(got[tuple(i)]), float(v[tuple(i)])), keep)
    seen.count('values', v.size)
    if rows:
        n = np.shape(args[rows[0]])[0]
        for i in range(n):
            a = [np.ascontiguousarray(x[i:i + 1]) if k in rows else x
                 for k, x in enumerate(args)]
            one = np.asarray(fn(*a))
            if one.shape != got[i:i + 1].shape:
                seen.bad(name + ':row', 'shape of row %d alone' % i, keep)
                break
            with np.errstate(all='ignore'):
                d = np.abs(one - got[i:i + 1]) <= 1e-14 * m[i:i + 1]
            d |= one == got[i:i + 1]
            d |= np.isnan(one) & np.isnan(got[i:i + 1])
            d |= np.isinf(m[i:i + 1])
            if not np.all(d):
                seen.bad(name + ':row', 'row %d alone differs' % i, keep)
                break
            seen.count('rows')
    return got


def signature(seen, name, args):
    seen.shapes.add('%s%s' % (name, [np.shape(a) for a in args]))


def big(rng, name, make):
    """Arguments long enough to keep many threads busy."""
    global SIZES
    old, SIZES = SIZES, (1, 40, 63, 64, 65, 97, 130)
    try:
        return make(rng)
    finally:
        SIZES = old


def run_memory(seen, rng, n):
    """Sanitizer build: every kernel over many shapes."""
    for k in range(n):
        for name, fn, make in load():
            args, want, rows = (big if k % 8 == 7 else lambda r, a, m: m(r))(
                rng, name, make)
            judge(seen, name, fn, args, want, rows)
            signature(seen, name, args)
    # strided arrays are refused, not misread
    for name, fn, make in load():
        args, want, rows = make(rng)
        for k, a in enumerate(args):
            if not isinstance(a, np.ndarray) or a.size == 0:
                continue
            b = list(args)
            b[k] = np.repeat(a, 2, axis=-1)[..., ::2]
            if b[k].flags.c_contiguous:
                continue
            try:
                got = np.asarray(fn(*b))
            except ValueError:
                seen.count('strided_refused')
            else:
                v, m = want()
                if not np.all(np.abs(got - v) <= 1e-9 * np.asarray(m)):
                    seen.bad(name + ':strided', 'strided argument misread', b)
                seen.count('strided_accepted')


def run_program(seen, rng, n, src):
    """Whole calculations on the sanitizer build."""
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import contextlib
    import io
    from quantas.harmonic.harmonic import HACalculator
    from quantas.qha.qha import QHACalculator
    path = os.path.join(src, 'examples', 'mgo_b3lyp_qha.yaml')
    s = dict(trange=(0., 600., 100.), energy_unit='Ha', lenght_unit='A',
             frequency_unit='cm^-1', temperature_unit='K', silent=True,
             logfile=None, debug=False)
    c = HACalculator(s)
    if c.read_input(path) is None:
        c.run()
        seen.count('programs')
    for scheme in ('freq', 'td'):
        s.update(trange=(0., 600., 12.), prange=(0., 4., 2.), edeg=3, fdeg=3,
                 qha_scheme=scheme, minimization='poly', eos_function='BM',
                 kieffer=False, pressure_unit='GPa')
        c = QHACalculator(s)
        with contextlib.redirect_stdout(io.StringIO()):
            if c.read_input(path) is None:
                c.run()
                seen.count('programs')


def run_threads(seen, rng, n, shim):
    """Race-detector build: concurrent shares with no ordering between
    them, and several Python threads calling at once."""
    for k in range(n):
        shim.shim_config(int(rng.integers(2, 6)), 0, int(rng.integers(1, 999)))
        for name, fn, make in load():
            args, want, rows = make(rng)
            judge(seen, name, fn, args, want, None)
            signature(seen, name, args)
    for name, fn, make in load():
        args, want, rows = big(rng, name, make)
        res = [None] * 3
        start = threading.Barrier(3)

        def call(j):
            start.wait()
            res[j] = np.asarray(fn(*args))
        th = [threading.Thread(target=call, args=(j,)) for j in range(3)]
        for t in th:
            t.start()
        for t in th:
            t.join()
        for r in res[1:]:
            if not same(r, res[0]):
                seen.bad(name + ':callers', 'simultaneous callers differ',
                         args)
        seen.count('simultaneous', 3)


def run_schedules(seen, rng, n, shim, real):
    """Normal build: bit-identical results for every schedule."""
    sched = set()
    for k in range(n):
        for name, fn, make in load():
            args, want, rows = (big if k % 3 == 2 else lambda r, a, m: m(r))(
                rng, name, make)
            if shim:
                shim.shim_config(1, 2, 1)
            else:
                real.omp_set_num_threads(1)
            base = judge(seen, name, fn, args, want, rows)
            signature(seen, name, args)
            for j in range(6):
                t = int(rng.choice((2, 3, 4, 5, 7, 8, 13, 16, 33)))
                if shim:
                    mode = int(rng.choice((1, 2, 2, 3, 3)))
                    s = int(rng.integers(1, 1 << 20))
                    shim.shim_config(t, mode, s)
                    sched.add((mode, t, s))
                else:
                    real.omp_set_num_threads(min(t, 16))
                    sched.add((9, t, 0))
                got = np.asarray(fn(*args))
                seen.count('scheduled_calls')
                if not same(got, base):
                    seen.bad(name + ':schedule', 'result depends on the '
                             'schedule (%d threads)' % t, args)
    seen.count('schedules', len(sched))


def main():
    spec = json.loads(sys.argv[1])
    import quantas
    src = os.path.realpath(os.path.dirname(os.path.dirname(quantas.__file__)))
    if src != os.path.realpath(spec['src']):
        sys.exit(3)
    import warnings
    warnings.simplefilter('ignore')
    rng = np.random.default_rng([spec['seed'], spec['index']])
    seen = Seen(spec['out'])
    shim = ctypes.CDLL(spec['shim']) if spec.get('shim') else None
    if shim:
        shim.shim_config(4, 0, 1)
    real = None if shim else ctypes.CDLL('libgomp.so.1')
    mode, n = spec['mode'], spec['cases']
    if mode == 'memory':
        run_memory(seen, rng, n)
        run_program(seen, rng, n, spec['src'])
    elif mode == 'threads':
        run_threads(seen, rng, n, shim)
    else:
        run_schedules(seen, rng, n, shim, real)
    stats = []
    if shim:
        buf = (ctypes.c_long * 8)()
        shim.shim_stats(buf)
        stats = list(buf)[:5]
    seen.save(shim=stats)


if __name__ == '__main__':
    main()
