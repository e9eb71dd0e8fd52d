"""C13: printed reports and logs show the computed results."""
import os
import re

import numpy as np

from vlib import cli, elastic as el, eosref as er, gen, runs
from vlib.core import Group
from checks.c16 import parse as extremes

PROPERTY = 'C13'
RULE = ('ha, qha, soec and eosfit runs over units, schemes, grids, titles, '
        'densities and data columns, loud, silenced and debugging; every '
        'number of every section and table of the log against the inputs '
        'and the same computation in memory, with its label and unit; one '
        'line per volume, temperature, pressure; log against screen, loud '
        'against silenced; non-trivial = distinct (command, options, shape)')
MIN = {'distinct': 70, 'reports': 80, 'numbers': 8000, 'silenced': 35,
       'rows': 1500}
ASSUMPTIONS = ['a number is right when it is the value rounded to the '
               'printed decimals (half a unit plus rounding of ties)',
               'in polynomial mode the pressures listed with the input lie '
               'between the slopes of the adjacent intervals']
FLOAT = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')


def number(ctx, token, value, key, least, what=''):
    """A printed token against the value, with at least that many decimals."""
    m = re.fullmatch(r'([-+]?)(\d+)\.?(\d*)(?:[eE]([-+]?\d+))?', token)
    ctx.expect(m, key, '%s printed as %r' % (what or key, token))
    dec = len(m.group(3)) - int(m.group(4) or 0)
    ctx.expect(len(m.group(3)) >= least, key + ':digits', '%s printed with '
               '%d decimals: %r' % (what or key, len(m.group(3)), token))
    v = float(value)
    ctx.expect(abs(float(token) - v) <= 0.5001 * 10.0**-dec + 2e-15 * abs(v),
               key, '%s printed as %s, computed %.15g' % (what or key, token,
                                                          v))
    ctx.count('numbers')


def after(ctx, lines, text, key):
    """Index of the first line holding the text."""
    for i, l in enumerate(lines):
        if text in l:
            return i
    ctx.fail(key, 'no line with %r in the report' % text)


def labelled(ctx, lines, label, key, start=0):
    """What follows 'label' on its line, the label at its start."""
    for l in lines[start:]:
        s = l.strip().lstrip('- ')
        if s.lower().startswith(label.lower()):
            return s[len(label):].strip().lstrip(':=').strip()
    ctx.fail(key, 'no %r line in the report' % label)


def rows(lines, start, n):
    """Rows of numbers from a line on, up to the first blank line."""
    out = []
    for l in lines[start:]:
        if not l.strip():
            if out:
                break
            continue
        if not FLOAT.match(l.strip()):
            if out:
                break
            continue
        out.append(l.split())
    return out


def grid_settings(ctx, lines, title, rng3, unit):
    i = after(ctx, lines, title, 'settings')
    for name, v in zip(('min', 'max', 'step'), rng3):
        got = labelled(ctx, lines, name + ':', 'settings:' + title, i)
        t = got.split()
        number(ctx, t[0], v, 'settings:%s:%s' % (title.split()[0], name), 2)
        ctx.same(t[1], unit, 'settings:unit', title)


def common(ctx, lines, r):
    """Settings, units, job and system counts of a phonon run."""
    grid_settings(ctx, lines, 'Temperature settings', r.tr,
                  r.u['temperature_unit'])
    if r.kind == 'qha':
        grid_settings(ctx, lines, 'Pressure settings', r.pr,
                      r.u['pressure_unit'])
    i = after(ctx, lines, 'Measurement units', 'units')
    for name, k in (('energy', 'energy_unit'), ('lenght', 'lenght_unit'),
                    ('frequency', 'frequency_unit'),
                    ('temperature', 'temperature_unit')) + (
                        (('pressure', 'pressure_unit'),)
                        if r.kind == 'qha' else ()):
        ctx.same(labelled(ctx, lines, name + ':', 'units', i), r.u[k],
                 'units:' + name)
    ctx.same(labelled(ctx, lines, 'Job:', 'job'), r.title, 'job')
    ctx.expect(any(r.name in l for l in lines if 'Reading' in l),
               'input-name', 'input file not named')
    d = r.d
    for name, v in (('Number of volumes', len(d['volume'])),
                    ('Number of atoms', d['natom']),
                    ('Number of sampled k-points',
                     int(round(abs(np.linalg.det(d['supercell']))))),
                    ('Number of frequencies',
                     3 * d['natom'] * np.sum(d['weights']))):
        # fractional weights: a truncated count
        ctx.close(float(labelled(ctx, lines, name, 'system')), v,
                  'system:' + name, 0, 0.0 if float(v).is_integer() else 1.0)
        ctx.count('numbers')
    ctx.expect(any('exported to' in l and r.out in l for l in lines),
               'output-name', 'result file not named')


def report_ha(ctx, lines, r, calc):
    common(ctx, lines, r)
    i = after(ctx, lines, 'Energy (%s)' % r.u['energy_unit'], 'table:label')
    ctx.expect('Volume (%s^3)' % r.u['lenght_unit'] in lines[i],
               'table:label', lines[i])
    t = rows(lines, i + 1, 2)
    ctx.same(len(t), len(r.d['volume']), 'table:rows', 'volume rows')
    for row, v, e in zip(t, r.d['volume'], r.d['energy']):
        number(ctx, row[0], v, 'table:volume', 6)
        number(ctx, row[1], e, 'table:energy', 12)
        ctx.count('rows')


EOSNAME = {'M': 'Murnaghan', 'BM': 'Birch-Murnaghan',
           'PT': 'Poirier-Tarantola', 'V': 'Vinet'}


def parenthesis(ctx, text, value, err, key):
    """value(error) with the error in units of the last digit."""
    m = re.fullmatch(r'(\S+?)\((\S+)\)', text.strip())
    ctx.expect(m, key, text)
    v, e = m.groups()
    if not np.isfinite(err) or err == 0:
        ctx.close(float(v), value, key, 1e-9)
        return
    if '.' in e or 'e' in e:
        ctx.close(float(v), value, key, 1e-9)
        ctx.close(float(e), err, key + ':error', 1e-3)
        return
    dec = len(v.split('.')[1]) if '.' in v and 'e' not in v else 0
    step = 10.0**-dec
    if 'e' in v:
        mantissa, power = v.split('e')
        dec = len(mantissa.partition('.')[2]) - int(power)
        step = 10.0**-dec
    ctx.expect(abs(float(v) - value) <= 0.5001 * step + 4e-15 * abs(value) +
               1e-6 * err,
               key, 'printed %s, computed %.15g' % (text, value))
    # trailing zeros of the rounded value are not printed; very large or
    # small errors keep their digits
    cand = [int(e) * 10.0**-k for k in range(-1, 25)]
    ctx.expect(any(abs(c - err) <= 0.5001 * 10.0**-k + 1e-3 * err
                   for c, k in zip(cand, range(-1, 25)) if k >= dec),
               key + ':error', 'printed %s, error %.6g' % (text, err))
    ctx.count('numbers', 2)


def report_qha(ctx, lines, r, calc):
    from quantas.utils.physics.units import convert_energy
    from quantas.qha.utils.ev_eos import EnergyEOS
    common(ctx, lines, r)
    got = labelled(ctx, lines, 'scheme:', 'scheme').lower()
    ctx.expect(got.startswith('freq' if r.scheme == 'freq' else 'thermo'),
               'scheme', got)
    got = labelled(ctx, lines, 'volume minimization:', 'minimisation').lower()
    ctx.expect(('equation of state' in got) == (r.mini == 'eos') and
               ('polynomial' in got) == (r.mini == 'poly'), 'minimisation',
               got)
    if r.mini == 'eos':
        got = labelled(ctx, lines, 'EoS formulation:', 'formulation')
        tag = r.settings['eos']
        ctx.expect(EOSNAME[tag] in got and
                   ('Birch' in got) == (tag == 'BM'), 'formulation', got)
    i = after(ctx, lines, 'Polynomial fitting', 'degrees')
    ctx.same(labelled(ctx, lines, 'energy:', 'degrees', i), str(r.edeg),
             'degree:energy')
    ctx.same(labelled(ctx, lines, 'frequency:', 'degrees', i), str(r.fdeg),
             'degree:frequency')
    ctx.same(labelled(ctx, lines, "use Kieffer's approach:", 'kieffer'),
             'No', 'kieffer')
    # volumes, energies and static pressures
    i = after(ctx, lines, 'Energy (%s)' % r.u['energy_unit'], 'table:label')
    ctx.expect('Volume (%s^3)' % r.u['lenght_unit'] in lines[i] and
               'Pressure (%s)' % r.u['pressure_unit'] in lines[i],
               'table:label', lines[i])
    t = rows(lines, i + 1, 3)
    V, E = np.array(r.d['volume']), np.array(r.d['energy'])
    ctx.same(len(t), len(V), 'table:rows', 'volume rows')
    f = convert_energy(1., r.u['energy_unit'], 'eV') * 160.2176634
    if r.u['lenght_unit'] == 'bohr':
        f /= 0.529177210903**3
    if r.u['pressure_unit'] == 'kbar':
        f *= 10
    if r.mini == 'eos':
        eos = EnergyEOS()
        p, err = eos.fit(r.settings['eos_function'], V, E)
        p, err = np.array(p), np.array(err)
        p[1] *= f
        err[1] *= f
        P = er.pressure(er.EV[r.settings['eos_function']], p[1], p[2],
                        er.implied(er.EV[r.settings['eos_function']], 3,
                                   False, p[1], p[2], 0)[1], p[3], V)
        j = after(ctx, lines, 'EoS fitting parameters', 'eos')
        for n, name in enumerate(('E0', 'K0', "K'", 'V0')):
            parenthesis(ctx, labelled(ctx, lines, name + ' ', 'eos', j),
                        p[n], err[n], 'eos:' + name)
    else:
        o = np.argsort(V)
        sec = -np.diff(E[o]) / np.diff(V[o]) * f
        lo = np.minimum(np.append(sec[0], sec), np.append(sec, sec[-1]))
        hi = np.maximum(np.append(sec[0], sec), np.append(sec, sec[-1]))
        lo, hi = lo[np.argsort(o)], hi[np.argsort(o)]
    mono = (np.diff(V) > 0).all() or (np.diff(V) < 0).all()
    for k, row in enumerate(t):
        number(ctx, row[1], V[k], 'table:volume', 6)
        number(ctx, row[2], E[k], 'table:energy', 12)
        got = float(row[0])
        if r.mini == 'eos':
            ctx.close(got, P[k], 'table:pressure', 1e-6, 0.501e-3 +
                      1e-6 * abs(p[1]), 'static pressure')
        elif mono:
            s = 0.501e-3 + 1e-6 * (abs(lo[k]) + abs(hi[k]))
            ctx.expect(lo[k] - s <= got <= hi[k] + s, 'table:pressure',
                       'static pressure %s, slopes %g %g' % (row[0], lo[k],
                                                             hi[k]))
        ctx.count('rows')
    # results, one block per pressure
    res = calc.results
    starts = [k for k, l in enumerate(lines) if 'Results at' in l]
    ctx.same(len(starts), len(calc.pressure), 'blocks', 'pressure blocks')
    for n, k in enumerate(starts):
        m = re.search(r'Results at (\S+) (\S+)', lines[k])
        ctx.close(float(m.group(1)), calc.pressure[n], 'block:pressure',
                  1e-9, 1e-9, 'pressure of the block')
        ctx.same(m.group(2), r.u['pressure_unit'], 'block:unit')
        h = k + after(ctx, lines[k:], 'T (', 'block:labels')
        lab = lines[h].split()
        want = ('T (%s) V(T) (%s^3) a_V (K^-1) KT (%s) KS (%s) Cp-Cv (J/mol '
                'K)') % (r.u['temperature_unit'], r.u['lenght_unit'],
                         r.u['pressure_unit'], r.u['pressure_unit'])
        ctx.same(lab, want.split(), 'block:labels')
        t = rows(lines, h + 1, 6)
        ctx.same(len(t), len(calc.temperature), 'block:rows',
                 'temperature rows')
        c = np.array([convert_energy(x, r.u['energy_unit'], 'kjmol')
                      for x in res['Cp-Cv'][:, n]])
        for j, row in enumerate(t):
            ctx.same(len(row), 6, 'block:columns')
            number(ctx, row[0], calc.temperature[j], 'block:T', 1)
            number(ctx, row[1], res['VT'][j][n], 'block:V', 6)
            number(ctx, row[2], res['alphaV'][j][n], 'block:alpha', 8)
            number(ctx, row[3], res['KT'][j][n], 'block:KT', 3)
            number(ctx, row[4], res['KS'][j][n], 'block:KS', 3)
            number(ctx, row[5], c[j], 'block:Cp-Cv', 6)
            ctx.count('rows')


def report_soec(ctx, lines, r, calc):
    text = '\n'.join(lines)
    ctx.expect('analysis of ' + r.title in text, 'title', text[:600])
    ctx.expect(('System is ' + r.cls) in text, 'system', 'class %s' % r.cls)
    got = labelled(ctx, lines, 'Density:', 'density')
    if r.rho:
        t = got.split()
        ctx.close(float(t[0]), r.rho, 'density', 1e-12)
        ctx.same(' '.join(t[1:]), 'kg m^-3', 'density:unit')
    else:
        ctx.expect('not provided' in got, 'density', got)
    for head, unit, M, dec, key in (
            ('Stiffness matrix', 'GPa', r.C, 4, 'stiffness'),
            ('Compliance', 'TPa^-1', np.linalg.inv(r.C) * 1000, 6,
             'compliance')):
        i = after(ctx, lines, head, key)
        ctx.expect('in %s)' % unit in lines[i], key + ':unit', lines[i])
        t = rows(lines, i + 1, 6)
        ctx.same([len(x) for x in t], [6] * 6, key + ':rows')
        for a in range(6):
            for b in range(6):
                # the inverse is rounded: allow for its conditioning
                v = M[a, b] if key == 'stiffness' else \
                    calc.soec.compliance[a, b] * 1000
                number(ctx, t[a][b], v, key, dec)
                ctx.close(v, M[a, b], key + ':value', 0, 1e-9 *
                          np.abs(M).max())
            ctx.count('rows')
    av = el.averages(r.C)
    i = after(ctx, lines, 'Average properties', 'averages')
    head = ' '.join(lines[i + 1:i + 4])
    order = [head.index(x) for x in ('Bulk', 'Young', 'Shear', 'Poisson')]
    ctx.expect(order == sorted(order), 'averages:labels', head)
    ctx.same(re.findall(r'\((\S+)\)', head), ['GPa'] * 3, 'averages:units')
    for k, (name, c) in enumerate((('Voigt', 'V'), ('Reuss', 'R'),
                                   ('Hill', 'H'))):
        t = labelled(ctx, lines, name + ' ', 'averages', i).split()
        ctx.same(len(t), 4, 'averages:columns')
        for x, v in zip(t, calc.results['avgs'][k]):
            number(ctx, x, v, 'averages:' + name, 5)
        ctx.count('rows')
    # against the independent averages (bulk, young, shear, poisson)
    K, G = av['H'][0], av['H'][2]
    ctx.close(np.array(calc.results['avgs'])[2, [0, 2]], [K, G], 'averages:value',
              1e-7)
    if r.rho:
        i = after(ctx, lines, 'wave velocities', 'waves')
        vp = np.sqrt((K + 4 * G / 3) * 1e9 / r.rho) / 1000
        vs = np.sqrt(G * 1e9 / r.rho) / 1000
        for name, v in (('Vs', vs), ('Vp', vp)):
            got = [l for l in lines[i:] if '(%s)' % name in l][0]
            t = got.split(':')[1].split()
            number(ctx, t[0], v, 'waves:' + name, 5)
            ctx.same(t[1], 'km/s', 'waves:unit')
    else:
        ctx.expect('wave velocities' not in text.split('methods employed')[0],
                   'waves', 'velocities without a density')
    w = np.linalg.eigvalsh(r.C)
    got = [l.split(':')[1].split()[0] for l in lines if 'lambda_' in l]
    ctx.same(len(got), 6, 'eigenvalues', 'six eigenvalues')
    for x, v in zip(sorted(got, key=float), w):
        number(ctx, x, v, 'eigenvalues', 5)
    # extremes
    var = calc.single_vector_variation() + calc.dual_vector_variation()
    for name, a, b in zip(('E', 'LC', 'G', 'Nu'), extremes(text), var):
        ctx.close(a[0], b[0], 'extremes:' + name, 0, 0.501e-4)
        if np.isfinite(b[1]) or np.isfinite(a[1]):
            ctx.close(a[1], b[1], 'extremes:anisotropy:' + name, 0, 0.501e-4)
        for k in range(2, 6):
            if b[k] is None:
                continue
            ctx.close(a[k], b[k], 'extremes:axes:' + name, 0, 0.501e-4)
        ctx.count('numbers', 3)
    if r.rho:
        i = after(ctx, lines, 'seismic velocities', 'seismic')
        lab = [l for l in lines[i:] if 'V_s1' in l][0]
        ctx.expect(lab.index('V_s1') < lab.index('V_s2') < lab.index('V_p'),
                   'seismic:labels', lab)
        t = [[float(x) for x in re.findall(r'-?\d+\.\d+', l)]
             for l in lines[i:] if '|' in l and re.search(r'\d\.\d', l)]
        p, s1, s2 = calc.phase_velocity_variation()
        want = [np.concatenate([v[0] for v in (s1, s2, p)]),
                np.array([v[1] for v in (s1, s2, p)])]
        for c in range(3):
            want.append(np.array([v[k][c] for v in (s1, s2, p)
                                  for k in (2, 3)]))
        ctx.same(len(t), 5, 'seismic:rows')
        for a, b in zip(t, want):
            ctx.close(a, b, 'seismic', 0, 0.501e-4)
            ctx.count('rows')


REPORT = {'ha': report_ha, 'qha': report_qha, 'soec': report_soec}
VOLATILE = re.compile(r'elaps|msec|\bsec\b|time|Debug')


def stable(lines):
    return [l.rstrip() for l in lines if l.strip() and
            not VOLATILE.search(l)]


def screen_is_silent(ctx, text, job):
    for l in text.splitlines():
        ctx.expect('Job:' not in l and 'Measurement units' not in l and
                   'Results at' not in l and cli.BANNER not in l and
                   'Calculator:' not in l and not l.strip().startswith(
                       'Voigt'), 'silenced:screen',
                   'report line on a silenced screen: %r' % l)
        ctx.expect(len(re.findall(r'-?\d+\.\d{3,}', l)) < 2,
                   'silenced:screen', 'numbers on a silenced screen: %r' % l)


def case(ctx, rng, i):
    kind = ('ha', 'qha', 'soec')[i % 3]
    wd = cli.fresh(ctx)
    kw = {'flags': False}
    if kind == 'qha':
        kw['many'] = rng.random() < 0.2
    if kind == 'soec':
        kw['polar'] = rng.random() < 0.15
    if kind == 'ha' and i % 12 == 0:        # long tables
        kw['nv'] = int(rng.integers(11, 16))
    if kind == 'ha' and i % 12 == 6:
        kw['tmax'] = 250
    if kind == 'qha' and i % 12 == 1:
        kw['nvol'] = int(rng.integers(13, 18))
    r = runs.MAKERS[kind](rng, wd,
                          title=runs.TITLES[i // 3 % len(runs.TITLES)], **kw)
    ctx.describe(args=r.args, title=r.title)
    if kind == 'soec':
        calc = el.prepare(ctx, r.C, r.rho, r.polar)
        from contextlib import redirect_stdout
        import io
        with redirect_stdout(io.StringIO()):
            calc.run()
    else:
        calc = runs.calculator(ctx, r)
    debug = i % 5 == 4
    r.args = r.args + (['-d'] if debug else [])
    o = runs.go(ctx, r)
    with open(r.path(r.log), encoding='utf8') as f:
        log = f.read().splitlines()
    REPORT[kind](ctx, log, r, calc)
    ctx.count('reports')
    ctx.same(stable(log), stable(o.text.splitlines()), 'log:screen',
             'log against screen')
    # silenced: the same log, no report on screen
    wd2 = cli.fresh(ctx)
    with open(r.path(), 'rb') as f, open(os.path.join(wd2, r.name),
                                         'wb') as g:
        g.write(f.read())
    if '/' in r.base:
        os.makedirs(os.path.join(wd2, os.path.dirname(r.base)))
    q = cli.must(ctx, r.args + ['-q'], cwd=wd2,
                 log=os.path.join(wd2, r.log))
    with open(os.path.join(wd2, r.log), encoding='utf8') as f:
        log2 = f.read().splitlines()
    ctx.same(stable(log2), stable(log), 'log:silenced',
             'log of a silenced run')
    screen_is_silent(ctx, q.text, r.title)
    ctx.count('silenced')
    ctx.nontrivial(kind, r.args[2:], len(log) // 10)


COLUMNS = ('V', 'a', 'b', 'c')


def case_eos(ctx, rng, i):
    """Report of an interactive equation-of-state session."""
    from quantas.eosfit.utils import pv_eos
    wd = cli.fresh(ctx)
    n = int(rng.integers(7, 15))
    P = np.sort(rng.uniform(0, 25, n))
    P[0] = 0.
    P = np.round(P, 4)
    have = [c for c in COLUMNS if rng.random() < 0.7] or ['V']
    data, sig = {}, {}
    for c in have:
        x = rng.uniform(80, 300) if c == 'V' else rng.uniform(3, 12)
        k = rng.uniform(60, 250) * (1 if c == 'V' else 3)
        data[c] = np.round(x * (1 + 4 * P / k)**-0.25 *
                           (1 + 2e-5 * rng.standard_normal(n)), 6)
        if rng.random() < 0.4:
            sig[c] = np.round(rng.uniform(0.5, 2, n) * x * 1e-4, 7)
    if rng.random() < 0.4:
        sig['P'] = np.round(rng.uniform(0.02, 0.1, n), 4)
    if i % 4 == 3:       # a measurement listed twice
        k = int(rng.integers(n - 1))
        for x in [P] + list(data.values()) + list(sig.values()):
            x[k + 1] = x[k]
    cols = ['P'] + have + ['sigma' + c for c in sig]
    title = gen.pick(rng, runs.TITLES)
    with open(os.path.join(wd, 'd.dat'), 'w', encoding='utf8') as f:
        f.write('JOB\n%s\nFORMAT\n%s\nDATA\n' % (title, ' '.join(cols)))
        for k in range(n):
            row = [P[k]] + [data[c][k] for c in have] + \
                [sig[c][k] for c in sig]
            f.write(' '.join(repr(float(x)) for x in row) + '\n')
    fits, ans = [], []
    for m in range(int(rng.integers(1, 3))):
        c = gen.pick(rng, have)
        name = gen.pick(rng, er.NAMES)
        order = int(gen.pick(rng, [o for o in er.ORDERS[name] if o < 4]))
        fix = [1, 1, 1, 1]
        ans += [c.lower(), er.KEY[name], str(order), 'n']
        if rng.random() < 0.3:
            # a fixed reference volume
            fix = [1, 1, 1, 0]
            ans += ['y', 'n', 'n', 'n', 'y']
        else:
            ans.append('n')
        w = [None, None]
        if 'P' in sig or c in sig:
            if rng.random() < 0.7:
                ans.append('')
                if 'P' in sig:
                    u = rng.random() < 0.7
                    ans.append('y' if u else 'n')
                    w[0] = sig['P'] if u else None
                if c in sig:
                    u = rng.random() < 0.7
                    ans.append('y' if u else 'n')
                    w[1] = sig[c] if u else None
            else:
                ans.append('n')
        ans += ['n', 'n', 'y']
        fits.append((c, name, order, fix, w))
    ans[-1] = 'n'
    ctx.describe(columns=cols, fits=[f[:4] for f in fits], answers=ans)
    o = cli.must(ctx, ['eosfit', 'd.dat'], '\n'.join(ans) + '\n', cwd=wd,
                 key='eosfit')
    with open(os.path.join(wd, 'd.log'), encoding='utf8') as f:
        log = f.read().splitlines()
    missing = [l for l in stable(log) if l not in stable(
        o.text.splitlines())]
    ctx.same(missing, [], 'eos:log:screen', 'log lines not on screen')
    ctx.expect(cli.BANNER in '\n'.join(log), 'eos:log', 'no banner')
    ctx.same(labelled(ctx, log, 'Job:', 'job'), title, 'eos:job')
    h = after(ctx, log, 'P (GPa)', 'eos:labels')
    lab = log[h].split()
    ctx.same(lab, 'P (GPa) V (A^3) a (A) b (A) c (A)'.split(), 'eos:labels')
    t = [l.split() for l in log[h + 2:h + 2 + n]]
    ctx.expect(not log[h + 2 + n].strip(), 'eos:rows', log[h + 2 + n])
    for k in range(n):
        ctx.same(len(t[k]), 5, 'eos:columns')
        number(ctx, t[k][0], P[k], 'eos:P', 3)
        for x, c in zip(t[k][1:], COLUMNS):
            if c in have:
                number(ctx, x, data[c][k], 'eos:' + c, 5)
            else:
                ctx.same(x, '--', 'eos:absent')
        ctx.count('rows')
    for c in ('P',) + COLUMNS:
        said = any('Found weights for' in l and (
            {'P': 'pressure', 'V': 'volume'}.get(c, c + '-axis')) in l
                   for l in log)
        ctx.same(said, c in sig, 'eos:weights', 'weights of ' + c)
    starts = [k for k, l in enumerate(log) if 'EOS results for' in l]
    ctx.same(len(starts), len(fits), 'eos:reports', 'fit reports')
    for s, e, (c, name, order, fix, w) in zip(
            starts, starts[1:] + [len(log)], fits):
        part = log[s:e]
        what = 'Volume' if c == 'V' else c + '-axis'
        ctx.expect(what in part[0], 'eos:title', part[0])
        ctx.same(labelled(ctx, part, 'EOS formulation:', 'eos'),
                 er.PRETTY[name], 'eos:formulation')
        ctx.same(labelled(ctx, part, 'EOS order:', 'eos'), str(order),
                 'eos:order')
        for k, lab in ((0, 'pressure'), (1, what)):
            line = [l for l in part if l.startswith('Results') and
                    lab in l]
            ctx.expect(len(line) == 1 and ('not weighted' in line[0]) ==
                       (w[k] is None), 'eos:weighted', '%s: %s' % (
                           lab, line))
        fit = getattr(pv_eos, name)()
        V = data[c].copy()
        res = fit.fit(V, P.copy(), guess=fit.guess(V, P, c != 'V'), sigmaV=w[1],
                      sigmaP=w[0], order=order, linear=c != 'V', fixed=fix)
        labs = ['K0', "K'", "K''", 'V0'] if c == 'V' else \
            ['M0(%s)' % c, "M'(%s)" % c, "M''(%s)" % c, c + '0']
        j = after(ctx, part, 'Fitting parameters', 'eos:fit')
        for k in range(4):
            got = labelled(ctx, part, labs[k] + ' ', 'eos:fit', j + 1)
            m = re.match(r'\s*=?\s*(\S+)\s+\+/-\s+(\S+)(.*)', got)
            ctx.expect(m, 'eos:fit', got)
            number(ctx, m.group(1), res.beta[k], 'eos:value', 5)
            number(ctx, m.group(2), res.sd_beta[k], 'eos:error', 5)
            ctx.same('FIXED' in m.group(3), fix[k] == 0, 'eos:fixed')
            ctx.same('IMPLIED' in m.group(3), k == 2 or (
                k == 1 and order == 2), 'eos:implied')
        j = after(ctx, part, 'Covariance', 'eos:fit')
        t = rows(part, j + 1, 4)
        for k in range(4):
            for a, b in zip(t[k], res.cov_beta[k]):
                ctx.close(float(a), b, 'eos:covariance', 1e-5, 1e-300)
        number(ctx, labelled(ctx, part, 'Residual variance:', 'eos'),
               res.res_var, 'eos:variance', 4)
        j = after(ctx, part, 'P_calc', 'eos:table')
        ctx.expect(('Volume (A^3)' if c == 'V' else what + ' (A)')
                   in part[j] and 'P_calc (GPa)' in part[j] and
                   'Pressure (GPa)' in part[j], 'eos:table', part[j])
        ctx.expect(part[j].index('eps_' + what[0]) <
                   part[j].index('Pressure') < part[j].index('P_calc') <
                   part[j].index('eps_P'), 'eos:table', part[j])
        t = rows(part, j + 1, 5)
        ctx.same(len(t), n, 'eos:table:rows', 'data rows')
        for k in range(n):
            for x, v, lab in zip(t[k], (V[k], res.delta[k], P[k], res.y[k],
                                        res.eps[k]),
                                 ('x', 'eps_x', 'P', 'P_calc', 'eps_P')):
                number(ctx, x, v, 'eos:table:' + lab, 5)
            ctx.close(float(t[k][3]) - float(t[k][2]), float(t[k][4]),
                      'eos:table:difference', 0, 1.6e-5)
            q = er.pressure(name, *res.beta, V[k] + res.delta[k])
            ctx.close(float(t[k][3]), q, 'eos:table:curve', 1e-6, 1e-5,
                      'P_calc against the fitted curve')
            ctx.count('rows')
    ctx.count('reports')
    ctx.nontrivial('eosfit', cols, [f[:4] for f in fits])


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('runs', 66 * k, case), Group('eos', 48 * k, case_eos)]
