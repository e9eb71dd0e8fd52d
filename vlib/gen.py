"""Workload generators: phonon inputs, elastic tensors, EoS data."""
import numpy as np

from vlib import ref

UNITS = {'energy_unit': ('Ha', 'eV', 'Ry'), 'lenght_unit': ('A', 'bohr'),
         'frequency_unit': ('cm^-1', 'THz', 'Hz'),
         'temperature_unit': ('K', 'C')}


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def units(rng):
    return {k: pick(rng, v) for k, v in sorted(UNITS.items())}


def num(x):
    """Full-precision float that YAML 1.1 reads as a float."""
    return '%.17e' % float(x)


def supercell(rng, n):
    """Integer 3x3 matrix of determinant n (possibly skewed)."""
    facs = [1, 1, 1]
    m, p = n, 2
    while m > 1:
        while m % p == 0:
            facs[int(rng.integers(3))] *= p
            m //= p
        p += 1
    M = np.diag(facs)
    if rng.random() < 0.4:
        M[0, 1] += int(rng.integers(-2, 3))
        M[0, 2] += int(rng.integers(-2, 3))
        M[1, 2] += int(rng.integers(-2, 3))
    if rng.random() < 0.2:      # left-handed
        M = M[rng.permutation(3)]
    return M


def write_qha(path, d, order=None, fmt=num, blank=True, comments=True,
              extra=None):
    """Write a phonon document in the documented YAML layout."""
    lines = []
    if d.get('job') is not None:
        lines.append('job: ' + d['job'])
    lines.append('natom:   %d' % d['natom'])
    lines.append('supercell:')
    for r in d['supercell']:
        lines.append('- [ %s ]' % ', '.join('%6d' % v for v in r))
    lines.append('qpoints: %d' % d.get('qpoints', len(d['weights'])))
    lines.append('volume: [ %s ]' % ', '.join(fmt(v) for v in d['volume']))
    lines.append('energy: [ %s ]' % ', '.join(fmt(v) for v in d['energy']))
    if extra:
        lines += extra
    lines.append('phonon:')
    for q in range(len(d['weights'])):
        lines.append('- q-position: [ %s ]' % ', '.join(
            '%.7f' % v for v in d.get('qpos', [[0., 0., 0.]] *
                                      len(d['weights']))[q]))
        w = d['weights'][q]
        lines.append('  weight: %s' % (
            '%d' % w if float(w).is_integer() else fmt(w)))
        lines.append('  band:')
        for b in range(d['freq'].shape[1]):
            lines.append('  - # %d' % (b + 1) if comments else '  -')
            lines.append('    frequency: [ %s ]' % ', '.join(
                fmt(v) for v in d['freq'][q, b]))
        if blank:
            lines.append('')
    with open(path, 'w', encoding='utf8') as f:
        f.write('\n'.join(lines) + '\n')
    return path


def spectrum(rng, nq, nat, nv, unit='cm^-1', kind=None):
    """Frequencies (nq, 3nat, nv) in `unit` with hostile features."""
    nb = 3 * nat
    kind = kind or pick(rng, ('plain', 'acoustic', 'imag', 'soft', 'stiff',
                              'mixed', 'tiny'))
    f = rng.uniform(30, 1200, (nq, nb, 1)) * \
        (1 + 0.05 * rng.standard_normal((nq, nb, nv)))
    f = np.abs(f) + 1.0
    if kind in ('acoustic', 'mixed'):
        f[0, :min(3, nb), :] = 0.0
    if kind in ('imag', 'mixed'):
        k = rng.random(f.shape) < 0.1
        f[k] *= -1
    if kind in ('soft', 'mixed'):
        k = rng.random(f.shape) < 0.2
        f[k] *= 1e-3
    if kind in ('stiff', 'mixed'):
        k = rng.random(f.shape) < 0.2
        f[k] *= 8
    if kind == 'tiny':
        k = rng.random(f.shape) < 0.3
        f[k] *= 10.0**rng.uniform(-17, -3)
    if rng.random() < 0.3:
        coincide(rng, f)
    return f * (ref.FREQ_HZ['cm^-1'] / ref.FREQ_HZ[unit]), kind


def coincide(rng, f):
    """Make parts of a spectrum equal, or nearly equal, to others."""
    nq, nb, nv = f.shape
    for _ in range(int(rng.integers(1, 4))):
        near = pick(rng, (0., 0., 1e-12, 1e-9, 1e-6, 1e-4))
        how = int(rng.integers(5))
        q, p = int(rng.integers(nq)), int(rng.integers(nq))
        b, c = int(rng.integers(nb)), int(rng.integers(nb))
        v, w = int(rng.integers(nv)), int(rng.integers(nv))
        s = 1 + near * rng.uniform(-1, 1)
        if how == 0:            # two q-points alike at one volume only
            v = 0 if rng.random() < 0.5 else v
            f[q, :, v] = f[p, :, v] * s
        elif how == 1:          # two q-points alike
            f[q] = f[p] * s
        elif how == 2:          # degenerate bands
            f[q, b] = f[q, c] * s
        elif how == 3:          # the same spectrum at two volumes
            f[:, :, v] = f[:, :, w] * s
        else:                   # one crossing
            f[q, b, v] = f[p, c, v] * s


def weights(rng, nq):
    k = int(rng.integers(4))
    if k == 0:
        return np.ones(nq)
    if k == 1:
        return rng.integers(1, 9, nq).astype(float)
    if k == 2:
        w = rng.uniform(0.05, 3, nq)
        return w / w.sum()
    return rng.uniform(0.05, 7, nq)


def ha_case(rng, u, nv=None, nq=None, nat=None, kind=None):
    if nv is nq is nat is None and rng.random() < 0.06:
        # one large dimension
        nv, nq, nat = [(None, int(rng.integers(40, 150)), 1),
                       (2, 1, int(rng.integers(30, 64))),
                       (int(rng.integers(17, 40)), 2, 1)][
                           int(rng.integers(3))]
    nv = nv or int(pick(rng, (1, 1, 2, 3, 5, 8)))
    nq = nq or int(pick(rng, (1, 1, 2, 4, 7)))
    nat = nat or int(pick(rng, (1, 2, 3, 5)))
    freq, kind = spectrum(rng, nq, nat, nv, u['frequency_unit'], kind)
    v0 = rng.uniform(10, 300) * (ref.ANG / ref.LENGTH_M[u['lenght_unit']])**3
    vol = v0 * np.sort(rng.uniform(0.9, 1.1, nv))
    e0 = -10**rng.uniform(0, 3) * ref.HA / ref.ENERGY_J[u['energy_unit']]
    ene = e0 + abs(e0) * 1e-3 * rng.random(nv)
    if rng.random() < 0.1:
        ene = -ene
    elif rng.random() < 0.1:
        ene = ene - ene.mean()
    elif rng.random() < 0.2:    # relative to one of the volumes
        ene = ene - ene[int(rng.integers(nv))]
    if nv > 1 and rng.random() < 0.3:
        # as listed: any order
        o = rng.permutation(nv) if rng.random() < 0.5 else \
            np.arange(nv)[::-1]
        vol, ene, freq = vol[o], ene[o], freq[:, :, o]
    w = weights(rng, nq)
    if nq > 1 and rng.random() < 0.1:
        w[int(rng.integers(nq))] = 0.0
    return {'job': 'generated %s nq=%d nat=%d nv=%d' % (kind, nq, nat, nv),
            'natom': nat, 'supercell': supercell(rng, nq), 'volume': vol,
            'energy': ene, 'weights': w, 'freq': freq,
            'kind': kind}


def trange(rng, tunit, nmax=25):
    """(min, max, step) in tunit; Kelvin temperatures stay >= 0."""
    step = float(pick(rng, (0.1, 1.0, 5.0, 10.0, 25.0, 50.0, 100.0, 0.37)))
    n = int(rng.integers(1, nmax + 1))
    if rng.random() < 0.4:
        lo = 0.0
    else:
        lo = float(np.round(rng.uniform(0.5, 900), 2))
    if tunit == 'C':
        lo -= 273.15 if lo == 0.0 else 273.0
    return (lo, lo + step * (n - 1), step)


def ha_settings(u, tr, silent=True, logfile=None, debug=False):
    s = dict(u)
    s.update(trange=tr, silent=silent, logfile=logfile, debug=debug)
    return s
