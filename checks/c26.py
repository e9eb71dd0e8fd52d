"""C26: text export reproduces the result file."""
import os

import h5py
import numpy as np

from vlib import cli, elastic as el, gen, runs
from vlib.core import Group

PROPERTY = 'C26'
RULE = ('result files of the ha, qha and soec commands (all unit systems, '
        'one to many temperatures, volumes and pressures), and the same '
        'files with their tables replaced by hostile values and shapes; '
        'random sessions of the export command over every selectable '
        'dataset, with wrong selections, existing files, refusals and new '
        'names; every exported row, column, unit and description against '
        'the datasets; result file compared byte for byte; files that are '
        'no results of that kind; non-trivial = distinct (kind, datasets, '
        'shape, answers)')
MIN = {'distinct': 90, 'tables': 450, 'values_compared': 20000,
       'refused': 60, 'renamed': 20, 'replaced': 20, 'wrong_selection': 20}
ASSUMPTIONS = ['printed precision: 2 decimals for T, 8 for V, P and moduli, '
               '13 significant digits for the others, 4 decimals for '
               'elastic sections',
               'descriptions name the quantity']

DESC = {'U0': 'static energy', 'Uzp': 'zero-point energy',
        'Uth': 'thermal energy', 'Utot': 'internal energy', 'S': 'entropy',
        'Fvib': 'vibrational helmholtz free energy',
        'F': 'helmholtz free energy', 'Cv': 'isochoric heat capacity',
        'VT': 'volume', 'Cp': 'isobaric heat capacity',
        'Cp-Cv': 'isobaric heat capacity', 'KT': 'isothermal bulk modulus',
        'KS': 'adiabatic bulk modulus', 'Kp': 'derivative of bulk modulus',
        'alphaV': 'thermal expansion', 'H': 'enthalpy',
        'G': 'gibbs free energy', 'gruneisen': 'neisen'}
FIXED = ('V', 'P', 'VT', 'KT', 'KS', 'Kp')
SOEC = {'E': ('young', 'GPa', 1), 'LC': ('compressib', 'TPa^-1', 2),
        'G': ('shear modulus', 'GPa', 2), 'Nu': ('poisson', '', 3),
        'waves': ('velocities', 'km s^-1', 3)}
# words that tell columns apart, and their order in every plane
LABELS = {'E': (), 'LC': ((('positive', 'negative'),) * 2,),
          'G': ((('minimum', 'maximum'),) * 2,),
          'Nu': ((('negative', 'positive'),) * 2,),
          'waves': ()}


def waves(ctx, head):
    """Two shear columns, then the longitudinal one, in every plane."""
    for l in head[1:]:
        w = [x.lower().replace('_', '') for x in l.split()]
        if any(x.startswith('vs') or x.startswith('vl') for x in w):
            ctx.same(w, ['vs1', 'vs2', 'vl'] * 3, 'header:labels', 'waves')
            return
    ctx.fail('header:labels', 'wave columns are labelled %r' % head[1:])


def split(ctx, path):
    """(preamble, numeric header row, rows of numbers) of a table file."""
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    seps = [i for i, l in enumerate(lines) if l[:1] == '+']
    ctx.expect(len(seps) == 3 and set(lines[seps[1]].strip('+ ')) == {'='},
               'table:frame', 'separators at lines %s of %s' % (
                   seps, os.path.basename(path)))
    ctx.expect(not ''.join(lines[seps[2] + 1:]).strip(), 'table:end',
               'text after the table: %r' % lines[seps[2] + 1:][:3])
    rows = []
    for l in lines[seps[1] + 1:seps[2]]:
        try:
            rows.append([float(x) for x in l.split()])
        except ValueError:
            ctx.fail('table:row', 'row %r of %s' % (
                l[:120], os.path.basename(path)))
    return lines[:seps[0]], lines[seps[0] + 1:seps[1]], rows


def number(ctx, got, want, k, key):
    """Printed number against the dataset value."""
    want = np.asarray(want, float)
    if k == 'T':
        ctx.close(got, want, key, 1e-14, 0.0051, k)
    elif k in FIXED:
        ctx.close(got, want, key, 1e-14, 0.51e-8, k)
    else:
        ctx.close(got, want, key, 0.6e-12, 1e-300, k)


def preamble(ctx, pre, desc, unit, name):
    text = '\n'.join(pre)
    ctx.expect('created using Quantas' in text, 'header', text)
    ctx.expect(desc in text.lower(), 'header:description', '%s described as '
               '%r' % (name, text))
    if name == 'F':
        ctx.expect('vibrational' not in text.lower(), 'header:description',
                   text)
    if name == 'Cp':
        ctx.expect('correction' not in text.lower(), 'header:description',
                   text)
    if name == 'Cp-Cv':
        ctx.expect('correction' in text.lower(), 'header:description', text)
    if unit:
        ctx.expect(any(l.strip() == 'Data in %s units' % unit for l in pre),
                   'header:unit', '%s is in %s, header is %r' % (
                       name, unit, text))
    else:
        ctx.expect('units' not in text, 'header:unit', text)


def thermo_table(ctx, path, h5, k, kind):
    ax = 'V' if kind == 'ha' else 'P'
    pre, head, rows = split(ctx, path)
    t, y, z = h5['T'][0], h5[ax][0], h5[k][0]
    preamble(ctx, pre, DESC[k], h5[k][1], k)
    lab = ' '.join(head[0].split())
    ctx.expect(lab.startswith('T (%s)' % h5['T'][1]), 'header:T', lab)
    want = ax + ' (%s' % h5[ax][1]
    rest = lab[len('T (%s)' % h5['T'][1]):].strip()
    ctx.expect(rest.startswith(want) and rest[len(want):].lstrip('^3') == ')',
               'header:' + ax, lab)
    ctx.expect(('^3' in rest) == (ax == 'V'), 'header:' + ax, lab)
    ys = [float(x) for x in ' '.join(head[1:]).split()]
    ctx.expect(len(ys) == len(y), 'columns', '%d columns, %d values of %s' %
               (len(ys), len(y), ax))
    number(ctx, ys, y, ax, 'columns')
    ctx.expect(len(rows) == len(t), 'rows', '%d rows for %d temperatures' % (
        len(rows), len(t)))
    z = np.broadcast_to(z, (len(t), len(y)))
    for i, r in enumerate(rows):
        ctx.expect(len(r) == len(y) + 1, 'row', 'row %d has %d numbers' % (
            i, len(r)))
    rows = np.array(rows)
    number(ctx, rows[:, 0], t, 'T', 'row:T')
    number(ctx, rows[:, 1:], z, k, 'values:' + k)
    ctx.count('tables')


def soec_table(ctx, path, h5, k):
    pre, head, rows = split(ctx, path)
    desc, unit, n = SOEC[k]
    preamble(ctx, pre, desc, unit, k)
    low = ' '.join(head)
    ctx.expect(low.index('xy') < low.index('xz') < low.index('yz'),
               'header:planes', low)
    labels = [l.lower().split() for l in head[1:]]
    for words, names in LABELS[k]:
        ctx.expect(any([w for w in l if w in words] == list(names) * 3 for l in labels),
                   'header:labels', '%s columns are labelled %r' % (
                       k, head[1:]))
    if k == 'waves':
        waves(ctx, head)
    full = [h5['polar_%s_%s' % (k, p)][0] for p in ('xy', 'xz', 'yz')]
    want = np.hstack([full[0][:, :1]] + [a[:, 1:] for a in full])
    ctx.expect(want.shape[1] == 3 * n + 1, 'shape', k)
    ctx.expect(len(rows) == len(want) and all(
        len(r) == 3 * n + 1 for r in rows), 'rows', '%s: %d rows of %s '
        'numbers, expected %s' % (k, len(rows), {len(r) for r in rows},
                                  want.shape))
    rows = np.array(rows)
    ctx.close(rows[:, 0], want[:, 0], 'row:angle', 0, 0.051)
    ctx.close(rows[:, 1:], want[:, 1:], 'values:' + k, 1e-14, 0.51e-4, k)
    ctx.count('tables')


def load(path):
    with open(path, 'rb') as f:
        raw = f.read()
    with h5py.File(path, 'r') as f:
        return raw, {k: (f[k][()], f[k].attrs['unit']) for k in f}


def session(ctx, rng, wd, name, kind):
    """One export session; returns what it did."""
    raw, h5 = load(os.path.join(wd, name))
    if kind == 'soec':
        keys = [k for k in SOEC if 'polar_%s_xy' % k in h5]
    else:
        keys = [k for k in h5 if k not in ('T', 'V' if kind == 'ha' else
                                           'P')]
    keys = [keys[i] for i in rng.permutation(len(keys))]
    if rng.random() < 0.3:
        keys = keys[:int(rng.integers(1, len(keys) + 1))]
    if rng.random() < 0.3:
        keys.append(keys[0])        # twice: its own file is in the way
    base = os.path.splitext(name)[0]
    stdin, out, kept, log = [], {}, {}, []
    files = set(os.listdir(wd))
    for n, k in enumerate(keys):
        if rng.random() < 0.1:
            stdin.append(gen.pick(rng, ('nothing', 'T', '', '99', 'cv')))
            if stdin[-1] == '':
                stdin.pop()
            else:
                ctx.count('wrong_selection')
                log.append('wrong')
        stdin.append(k)
        f = '%s_%s.dat' % (base, k)
        if f not in files and rng.random() < 0.25:
            # something of the user's is already there
            with open(os.path.join(wd, f), 'wb') as g:
                g.write(b'do not lose me\n' * int(rng.integers(1, 4000)))
            files.add(f)
        while f in files:
            if rng.random() < 0.5:
                stdin.append(gen.pick(rng, ('y', 'Y', 'yes')))
                ctx.count('replaced')
                log.append('replaced')
                break
            stdin.append(gen.pick(rng, ('n', 'N', 'no', '')))
            if f not in out:
                with open(os.path.join(wd, f), 'rb') as g:
                    kept[f] = g.read()
            f = gen.pick(rng, ('new', 'my table', 'x.dat', 'other')) + \
                str(rng.integers(0, 3))
            stdin.append(f)
            ctx.count('renamed')
            log.append('renamed')
        out[f] = k
        kept.pop(f, None)
        files.add(f)
        last = n == len(keys) - 1
        stdin.append(gen.pick(rng, ('n', '')) if last else
                     gen.pick(rng, ('y', 'yes')))
    cli.must(ctx, ['export', kind, name], '\n'.join(stdin) + '\n', cwd=wd,
             key='export')
    for f, k in out.items():
        p = os.path.join(wd, f)
        ctx.expect(os.path.isfile(p), 'missing', 'no file %r for %s (%s)' % (
            f, k, sorted(os.listdir(wd))))
        if kind == 'soec':
            soec_table(ctx, p, h5, k)
        else:
            thermo_table(ctx, p, h5, k, kind)
    for f, old in kept.items():
        with open(os.path.join(wd, f), 'rb') as g:
            ctx.same(g.read(), old, 'kept', 'refused file ' + f)
    ctx.same(sorted(os.listdir(wd)), sorted(files), 'files',
             'files after the session')
    with open(os.path.join(wd, name), 'rb') as f:
        ctx.expect(f.read() == raw, 'source', 'result file changed')
    return sorted(set(keys)), log


def hostile(rng, path, kind):
    """Replace the tables with values a table writer may trip on."""
    ax = 'V' if kind == 'ha' else 'P'
    nt = int(gen.pick(rng, (1, 2, 3, 7, 60, 400)))
    ny = int(gen.pick(rng, (1, 2, 3, 5, 24, 75, 130)))
    with h5py.File(path, 'r+') as f:
        for k in list(f):
            unit = f[k].attrs['unit']
            desc = f[k].attrs.get('desc')
            if k == 'T':
                v = np.sort(rng.uniform(0, 3000, nt))
                if rng.random() < 0.3:
                    v = v / 1000
                if rng.random() < 0.1:
                    v = v - 273.15
            elif k == ax:
                v = np.sort(rng.uniform(0, 10**rng.uniform(0, 4), ny))
                if rng.random() < 0.3:
                    v[0] = 0.0
            else:
                shape = (nt, ny)
                if f[k].ndim == 1:
                    shape = (ny,)
                elif f[k].shape[0] == 1 and kind == 'ha' and \
                        k in ('Uzp', 'U0'):
                    shape = (1, ny)
                if k in FIXED:
                    v = rng.uniform(-1, 1, shape) * 10**rng.uniform(-4, 6)
                else:
                    v = rng.choice((-1, 1), shape) * \
                        10**rng.uniform(-30, 6, shape)
                v[rng.random(shape) < 0.05] = 0.0
            del f[k]
            f.create_dataset(k, data=v)
            f[k].attrs['unit'] = unit
            if desc is not None:
                f[k].attrs['desc'] = desc
    return nt, ny


def case(ctx, rng, i):
    kind = 'ha' if i % 2 else 'qha'
    wd = cli.fresh(ctx)
    r = runs.MAKERS[kind](rng, wd, flags=False,
                          title=runs.TITLES[i // 2 % len(runs.TITLES)])
    runs.go(ctx, r)
    rel = os.path.relpath(r.path(r.out), wd)
    ctx.describe(args=r.args)
    os.replace(r.path(r.out), os.path.join(wd, 'res.hdf5'))
    what = [kind, r.u]
    what.append(session(ctx, rng, wd, 'res.hdf5', kind))
    for n in range(4):
        name = gen.pick(rng, ('h', 'my file', 'a.b')) + str(n) + '.hdf5'
        with open(os.path.join(wd, 'res.hdf5'), 'rb') as f, \
                open(os.path.join(wd, name), 'wb') as g:
            g.write(f.read())
        what.append(hostile(rng, os.path.join(wd, name), kind))
        what.append(session(ctx, rng, wd, name, kind))
    ctx.nontrivial(*what)


def case_soec(ctx, rng, i):
    wd = cli.fresh(ctx)
    r = runs.soec(rng, wd, flags=False, polar=True)
    ctx.describe(args=r.args, C=r.C, density=r.rho)
    runs.go(ctx, r)
    os.replace(r.path(r.out), os.path.join(wd, 'res.hdf5'))
    what = ['soec', session(ctx, rng, wd, 'res.hdf5', 'soec')]
    with h5py.File(os.path.join(wd, 'res.hdf5'), 'r+') as f:
        for k in f:
            if k.startswith('polar_'):
                v = f[k][()]
                v[:, 1:] = rng.uniform(-1, 1, v[:, 1:].shape) * \
                    10**rng.uniform(-4, 7, v[:, 1:].shape)
                f[k][...] = v
    what.append(session(ctx, rng, wd, 'res.hdf5', 'soec'))
    ctx.nontrivial(*what)


def refused(ctx, rng, i):
    """No results of that kind: a message, no table, nothing else."""
    wd = cli.fresh(ctx)
    kind = ('ha', 'qha', 'soec')[i % 3]
    how = ('other', 'text', 'empty', 'truncated', 'foreign', 'directory',
           'nopolar')[(i // 3) % 7]
    p = os.path.join(wd, 'f.hdf5')
    if how in ('other', 'truncated', 'nopolar'):
        k = kind
        if how == 'other':
            k = [x for x in runs.MAKERS if x != kind][int(rng.integers(0, 2))]
        if how == 'nopolar':
            kind = k = 'soec'
        opt = {'polar': how != 'nopolar'} if k == 'soec' else {}
        r = runs.MAKERS[k](rng, wd, flags=False, **opt)
        runs.go(ctx, r)
        os.replace(r.path(r.out), p)
        if how == 'truncated':
            with open(p, 'r+b') as f:
                f.truncate(int(rng.integers(1, 7)))
    elif how == 'text':
        with open(p, 'w') as f:
            f.write('not a result\n' * int(rng.integers(1, 50)))
    elif how == 'empty':
        open(p, 'w').close()
    elif how == 'foreign':
        with h5py.File(p, 'w') as f:
            f['x'] = rng.random(5)
            if i % 2:
                f['T'] = rng.random(5)
                f.attrs['info'] = 'somebody else'
    else:
        os.mkdir(p)
    before = cli.snapshot(wd)
    ctx.describe(kind=kind, how=how)
    o = cli.run(['export', kind, 'f.hdf5'], 'F\nn\n', cwd=wd)
    ctx.count('commands')
    if o.crash:
        import traceback
        ctx.fail('refused:traceback', '%s file: %s' % (how, ''.join(
            traceback.format_exception(*o.tb))[-900:]))
    ctx.expect(not o.ok, 'refused:banner', '%s file taken for a result of '
               '%s' % (how, kind))
    ctx.expect(len(o.text.strip()) > 0, 'refused:silent', how)
    ctx.same(cli.snapshot(wd), before, 'refused:files', 'directory changed')
    ctx.count('refused')
    ctx.nontrivial('refused', kind, how)


def groups(tier):
    k = 1 if tier == 'quick' else 20
    return [Group('thermo', 72 * k, case), Group('soec', 20 * k, case_soec),
            Group('refused', 84 * k, refused)]
