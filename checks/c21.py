"""C21: well-formed input files are read exactly as written."""
import os

import numpy as np

from vlib import cli, elastic as el, gen
from vlib.core import Group

PROPERTY = 'C21'
RULE = ('documents are written from known tokens in every layout the formats '
        'allow: key order, block, flow, folded and text lists, comments, '
        'blank lines, indentation, CRLF, extra keys, quoted and plain titles '
        '(YAML); full, upper and lower forms, with and without title and '
        'density (elastic); any set, order, case and alias of columns, '
        'foreign columns, comments, titles that look like keywords (EoS); '
        'numbers in integer, fixed and exponent notation; every value the '
        'readers expose is compared with float(token) bit by bit, twice; the '
        'example files against a naive reading; non-trivial = distinct '
        'document')
MIN = {'distinct': 400, 'documents': 420, 'values_compared': 20000,
       'layouts': 400}
ASSUMPTIONS = ['numbers are those of YAML 1.1 for the phonon documents',
               'titles are compared without leading and trailing blanks']
TITLES = ('MgO', 'Quartz (Angel et al., 2000)', 'a: b', "it's # one", '3 GPa',
          'Data of 2020', 'FORMAT', 'job', 'DATA', 'périclase α-β', 'x' * 120,
          '-', '"quoted"', 'P V', '1 bar and 300 K', '{a}', '[x]', 'tab\there',
          'volume', '%d %s', 'run 1.5e3', '@', '*', '! 5', 'yes', '~', '& co')


def number(rng, lo, hi, ints=True):
    """(text, value) of a number in some notation."""
    x = float(rng.uniform(lo, hi))
    k = int(rng.integers(7 if ints else 6))
    t = ('%.6f' % x, '%.17e' % x, '%.8E' % x, repr(x), '%.3f' % x,
         '%.12f' % x, '%d' % round(x))[k]
    if float(t) == 0.:
        t = '%.17e' % x
    if t.startswith('0.') and rng.random() < 0.3:
        t = t[1:]
    elif t[0] != '-' and rng.random() < 0.1:
        t = '+' + t
    return t, float(t)


def numbers(rng, n, lo, hi, ints=True):
    p = [number(rng, lo, hi, ints) for _ in range(n)]
    return [a for a, _ in p], np.array([b for _, b in p])


def quoted(rng, t):
    k = int(rng.integers(3))
    if k == 0:
        return "'%s'" % t.replace("'", "''")
    if k == 1:
        return '"%s"' % t.replace('\\', '\\\\').replace('"', '\\"').replace(
            '\t', '\\t')
    return '>-\n  ' + t if '\t' not in t else "'%s'" % t


def items(rng, toks, pad, how=None):
    """A list of numbers after a key, in one of the notations of YAML."""
    how = how or gen.pick(rng, ('flow', 'flow', 'block', 'folded', 'text',
                                'texts', 'tight'))
    if how == 'block':
        return '\n' + '\n'.join('%s- %s' % (pad, t) for t in toks), how
    if how == 'folded':
        k = max(1, len(toks) // 2)
        return ' [ %s,\n%s   %s ]' % (', '.join(toks[:k]), pad,
                                      ',   '.join(toks[k:])), how
    if how == 'text' and len(toks) > 1:
        return '\n%s- %s' % (pad, '   '.join(toks)), how
    if how == 'texts' and len(toks) > 3:
        k = int(rng.integers(2, len(toks) - 1))
        return '\n%s- %s\n%s- %s' % (pad, ' '.join(toks[:k]), pad,
                                     '  '.join(toks[k:])), how
    if how == 'tight':
        return ' [%s]' % ', '.join(toks), how
    return ' [ %s ]' % ',  '.join(toks), 'flow'


def sign(toks):
    """A leading plus of a token is fine, but not before the dot."""
    return [t.replace('+.', '+0.').replace('-.', '-0.') if '.' in t[:2]
            else t for t in toks]


def phonon(ctx, rng, index):
    """Phonon documents."""
    from quantas.IO.qha_reader import QHAInputFileReader
    wd = cli.fresh(ctx)
    nat = int(gen.pick(rng, (1, 1, 2, 3, 7)))
    nq = int(gen.pick(rng, (1, 1, 2, 5)))
    nv = int(gen.pick(rng, (1, 2, 4, 6, 11)))
    if rng.random() < 0.06:     # one large dimension
        big = int(rng.integers(3))
        nat, nq, nv = [(40, 2, 4), (2, 130, 2), (1, 2, 40)][big]
    dim = gen.supercell(rng, int(rng.integers(1, 33)))
    if rng.random() < 0.5:
        dim = dim[rng.permutation(3)]
    vt, vol = numbers(rng, nv, 5, 900)
    et, ene = numbers(rng, nv, -900, -1)
    ft, freq = [], np.zeros((nq, 3 * nat, nv))
    for q in range(nq):
        ft.append([])
        for b in range(3 * nat):
            t, freq[q, b] = numbers(rng, nv, -50, 1500)
            if rng.random() < 0.1:
                t, freq[q, b] = ['0.0'] * nv, 0.
            ft[q].append(sign(t))
    wt, w = numbers(rng, nq, 0.1, 30)
    if rng.random() < 0.5:
        w = rng.integers(1, 40, nq).astype(float)
        wt = ['%d' % x for x in w]
    title = gen.pick(rng, TITLES) if rng.random() < 0.8 else None
    hows, sec = [], {}
    pad = gen.pick(rng, ('', '  ', '    '))
    for k, t in (('volume', vt), ('energy', et)):
        s, h = items(rng, sign(t), pad)
        sec[k] = k + ':' + s
        hows.append(h)
    sec['natom'] = 'natom:' + ' ' * int(rng.integers(1, 8)) + '%d' % nat
    sec['qpoints'] = 'qpoints:  %d' % nq
    if rng.random() < 0.3:
        sec['qpoints'] += '   # number of points'
    if rng.random() < 0.2:
        sec['supercell'] = 'supercell: [%s]' % ', '.join(
            '[%d, %d, %d]' % tuple(r) for r in dim)
    else:
        sec['supercell'] = 'supercell:\n' + '\n'.join(
            pad + '- [ %6d, %6d, %6d ]' % tuple(r) for r in dim)
    if title is not None:
        sec['job'] = 'job: ' + quoted(rng, title)
    out = ['phonon:']
    order = [rng.permutation(3)] * nq
    how = gen.pick(rng, (None, 'flow', 'text', 'block', 'folded'))
    pre = gen.pick(rng, ('', '  '))
    for q in range(nq):
        parts = ['q-position: [ %s ]' % ', '.join(
            '%.7f' % x for x in rng.uniform(-0.5, 0.5, 3)),
            'weight: %s' % sign([wt[q]])[0], None]
        band = [pre + '  band:']
        for b in range(3 * nat):
            s, h = items(rng, ft[q][b], pre + '      ', how)
            hows.append(h)
            band.append(pre + gen.pick(rng, ('  - # %d\n%s    frequency:' % (
                b + 1, pre), '  - frequency:')) + s)
        parts[2] = '\n'.join(band)
        first = True
        for k in order[q]:
            line = parts[k] if k != 2 else parts[2][len(pre) + 2:]
            out.append(pre + ('- ' if first else '  ') + line)
            first = False
        if rng.random() < 0.5:
            out.append(gen.pick(rng, ('', '# next', '\n')))
    sec['phonon'] = '\n'.join(out)
    if rng.random() < 0.3:
        sec['extra'] = gen.pick(rng, (
            'note: written by hand', 'elements: [ Mg, O ]',
            'temperature: 300', 'volumes: [ 1., 2. ]', 'q-mesh:\n  a: 1'))
    keys = list(sec)
    if rng.random() < 0.6:
        keys = [keys[k] for k in rng.permutation(len(keys))]
    text = ('\n' + gen.pick(rng, ('', '\n', '# comment: x\n'))).join(
        sec[k] for k in keys) + gen.pick(rng, ('', '\n', '\n\n', '\n...\n'))
    if rng.random() < 0.2:
        text = '---\n' + text
    if rng.random() < 0.2:
        text = '# a first comment\n\n' + text
    nl = gen.pick(rng, ('\n', '\n', '\r\n'))
    p = os.path.join(wd, 'in.yaml')
    with open(p, 'wb') as f:
        f.write(text.replace('\n', nl).encode('utf8'))
    ctx.describe(natom=nat, qpoints=nq, volumes=nv, keys=keys, hows=hows[:4])
    for _ in range(2):
        r = QHAInputFileReader(p)
        ctx.expect(r.completed is True and r.error is None, 'phonon:refused',
                   '%s\n%s' % (r.error, text[:900]))
        ctx.count('documents')
        ctx.same(int(r.natoms), nat, 'phonon:natoms')
        ctx.same(int(r.qpoints), nq, 'phonon:qpoints')
        ctx.same(int(r.nvol), nv, 'phonon:nvol')
        ctx.same(int(r.kpoints), int(round(abs(np.linalg.det(dim)))),
                 'phonon:kpoints')
        exact(ctx, r.volume, vol, 'phonon:volume')
        exact(ctx, r.energy, ene, 'phonon:energy')
        exact(ctx, r.frequencies, freq, 'phonon:frequencies')
        exact(ctx, r.weights, w, 'phonon:weights')
        ctx.close(r.total_q_points, w.sum(), 'phonon:total', 1e-14)
        want = 'Unknown' if title is None else title
        ctx.same(r.jobname.strip(), want.strip(), 'phonon:title')
    for h in set(hows):
        ctx.count('layouts')
    ctx.nontrivial(text)


def exact(ctx, got, want, key):
    """Same shape, type float, bit-identical values."""
    got = np.asarray(got)
    want = np.asarray(want)
    ctx.same(got.shape, want.shape, key + ':shape')
    ctx.expect(got.dtype == np.float64, key + ':type', str(got.dtype))
    ctx.close(got, want, key, 0., 0.)


def elastic(ctx, rng, index):
    """Elastic matrices."""
    from quantas.IO.soec_reader import SOECInputFileReader
    wd = cli.fresh(ctx)
    cls = gen.pick(rng, el.CLASSES)
    if rng.random() < 0.3:
        C = rng.uniform(-300, 300, (6, 6))
    else:
        C = el.tensor(rng, cls)[0]
    how = int(rng.integers(5))
    tok = [[None] * 6 for _ in range(6)]
    M = np.zeros((6, 6))
    for i in range(6):
        for j in range(i, 6):
            x = C[i, j]
            t = ('%.3f' % x, '%.17e' % x, repr(float(x)), '%d' % round(x),
                 '%10.5f' % x)[how].strip()
            if float(t) == 0 and rng.random() < 0.3:
                t = gen.pick(rng, ('0', '0.', '-0.0', '.0', '0.000'))
            tok[i][j] = tok[j][i] = t
            M[i, j] = M[j, i] = float(t)
    form = ('full', 'upper', 'lower')[index % 3]
    if form == 'full' and rng.random() < 0.2:
        # tolerated asymmetry
        i, j = 0, int(rng.integers(1, 6))
        M[i, j] = float('%.8f' % (M[i, j] + 2e-4))
        tok[i][j] = '%.8f' % M[i, j]
    sep = gen.pick(rng, (' ', '   ', '\t', ' \t '))
    rows = []
    for i in range(6):
        r = {'full': tok[i], 'upper': tok[i][i:], 'lower': tok[i][:i + 1]}[
            form]
        rows.append(gen.pick(rng, ('', ' ', '     ' * (i + 1), '\t')) +
                    sep.join(r) + gen.pick(rng, ('', ' ', '\t')))
    title = gen.pick(rng, TITLES) if rng.random() < 0.75 else None
    lines = ([] if title is None else
             [gen.pick(rng, ('', ' ')) + title + gen.pick(rng, ('', '  '))]) \
        + rows
    rho = None
    if rng.random() < 0.7:
        t, rho = number(rng, *gen.pick(rng, (
            (800, 20000), (800, 20000), (0.001, 30), (30, 800),
            (20000, 3e6))))
        if rng.random() < 0.3:
            lines.append(gen.pick(rng, ('', '   ')))
        lines.append(gen.pick(rng, ('', '  ', '\t')) + t +
                     gen.pick(rng, ('', '  ')))
    elif rng.random() < 0.3:
        lines += [''] * int(rng.integers(1, 3))
    nl = gen.pick(rng, ('\n', '\n', '\r\n'))
    p = os.path.join(wd, 's.dat')
    with open(p, 'wb') as f:
        f.write((nl.join(lines) + gen.pick(rng, ('', nl, nl + nl))).encode(
            'utf8'))
    ctx.describe(form=form, title=title, density=rho)
    for _ in range(2):
        r = SOECInputFileReader(p)
        ctx.expect(r.completed is True and r.error is None, 'elastic:refused',
                   '%s\n%s' % (r.error, lines))
        ctx.count('documents')
        exact(ctx, r.stiffness, M, 'elastic:stiffness')
        ctx.close(r.density, 0. if rho is None else rho, 'elastic:density',
                  0., 0.)
        ctx.same(r.jobname.strip(' \t'),
                 'Unknown' if title is None else title.strip(),
                 'elastic:title')
    ctx.count('layouts')
    ctx.nontrivial(lines, nl)


ALIAS = {'p': ['P', 'p'], 'v': ['V', 'v'], 'a': ['a', 'A'], 'b': ['b', 'B'],
         'c': ['c', 'C']}
for _k in 'pvabc':
    ALIAS['sigma' + _k] = ['sigma' + x for x in (_k, _k.upper())] + [
        'SIGMA' + _k.upper(), 'Sigma' + _k, 'sig' + _k, 'SIG' + _k.upper(),
        'sig' + _k.upper()]
ATTR = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c',
        'sigmap': 'sigma_p', 'sigmav': 'sigma_v', 'sigmaa': 'sigma_a',
        'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}
RANGE = {'p': (-2, 90), 'v': (20, 900)}


def table(ctx, rng, index):
    """Equation-of-state tables."""
    from quantas.IO.eos_reader import EoSInputFileReader
    wd = cli.fresh(ctx)
    cols = ['p'] + [c for c in 'vabc' if rng.random() < 0.5]
    if len(cols) == 1:
        cols.append(gen.pick(rng, 'vabc'))
    cols += ['sigma' + c for c in 'pvabc' if rng.random() < 0.35]
    cols += ['?'] * int(rng.integers(0, 3) if rng.random() < 0.3 else 0)
    cols = [cols[k] for k in rng.permutation(len(cols))]
    n = int(rng.integers(1, 15) if rng.random() < 0.93 else
            rng.integers(40, 160))
    foreign = iter(('T', 'sigmaT', 'frame'))
    names = [gen.pick(rng, ALIAS[c]) if c != '?' else next(foreign)
             for c in cols]
    toks = [[number(rng, *RANGE.get(c, (1e-4, 20))) for c in cols]
            for _ in range(n)]
    sep = gen.pick(rng, (' ', '   ', '\t', ' \t'))
    kw = gen.pick(rng, (str, str, str.lower, str.title))

    def junk():
        k = int(rng.integers(6))
        return (['# JOB'], ['  # comment 1 2 3'], [''], ['   ', '#'],
                [], [])[k]
    lines = []
    title = None
    job = []
    if rng.random() < 0.75:
        title = gen.pick(rng, TITLES)
        job = [kw('JOB'), gen.pick(rng, ('', ' ')) + title]
    fmt = [kw('FORMAT'), gen.pick(rng, ('', '  ')) + sep.join(names)]
    parts = [job, fmt]
    if rng.random() < 0.3:
        parts.reverse()
    for part in parts:
        lines += junk() + part
    lines += junk() + [kw('DATA') + gen.pick(rng, ('', ' '))]
    for row in toks:
        if rng.random() < 0.3:
            lines += junk()
        lines.append(gen.pick(rng, ('', ' ', '\t')) + sep.join(
            t for t, _ in row) + gen.pick(rng, ('', ' ')))
    lines += junk()
    nl = gen.pick(rng, ('\n', '\n', '\r\n'))
    p = os.path.join(wd, 't.dat')
    with open(p, 'wb') as f:
        f.write((nl.join(lines) + gen.pick(rng, ('', nl))).encode('utf8'))
    ctx.describe(columns=names, rows=n, title=title)
    for _ in range(2):
        r = EoSInputFileReader(p)
        ctx.expect(r.completed is True and r.error is None, 'table:refused',
                   '%s\n%s' % (r.error, lines))
        ctx.count('documents')
        for c, attr in ATTR.items():
            got = getattr(r, attr)
            if c in cols:
                want = [row[cols.index(c)][1] for row in toks]
                exact(ctx, got, want, 'table:' + c)
                exact(ctx, r.data[c], want, 'table:data:' + c)
            else:
                ctx.expect(got is None, 'table:invented', '%s: %r' % (c, got))
                ctx.expect(r.data[c] is None, 'table:invented', c)
        ctx.same(r.jobname.strip(),
                 'Unknown' if title is None else title.strip(),
                 'table:title')
    ctx.count('layouts')
    ctx.nontrivial(lines, nl)


SHIPPED = ('PV_topaz.dat', 'hydroxylapatite.dat', 'mgo_b3lyp_qha.yaml')


def shipped(ctx, rng, index):
    """The example files, against a naive independent reading."""
    name = SHIPPED[index % len(SHIPPED)]
    p = os.path.join(ctx.src, 'examples', name)
    if not os.path.exists(p):
        return
    with open(p, encoding='utf8') as f:
        lines = f.read().splitlines()
    ctx.describe(file=name)
    ctx.count('documents')
    ctx.nontrivial(name)
    if name.startswith('PV'):
        from quantas.IO.eos_reader import EoSInputFileReader
        r = EoSInputFileReader(p)
        k = lines.index('FORMAT')
        names = lines[k + 1].lower().split()
        rows = np.array([[float(x) for x in s.split()]
                         for s in lines[lines.index('DATA') + 1:] if s])
        for c, attr in ATTR.items():
            exact(ctx, getattr(r, attr), rows[:, names.index(c)], 'eos:' + c)
        ctx.same(r.jobname, lines[lines.index('JOB') + 1], 'eos:title')
    elif name.startswith('hydro'):
        from quantas.IO.soec_reader import SOECInputFileReader
        r = SOECInputFileReader(p)
        M = np.zeros((6, 6))
        for i in range(6):
            M[i, i:] = M[i:, i] = [float(x) for x in lines[i + 1].split()]
        exact(ctx, r.stiffness, M, 'soec:stiffness')
        ctx.close(r.density, float(lines[7]), 'soec:density', 0., 0.)
    else:
        from quantas.IO.qha_reader import QHAInputFileReader
        r = QHAInputFileReader(p)

        def nums(s):
            return [float(x) for x in s[s.index('[') + 1:s.index(']')].split(
                ',')]
        exact(ctx, r.volume, nums([s for s in lines if s.startswith(
            'volume')][0]), 'qha:volume')
        exact(ctx, r.energy, nums([s for s in lines if s.startswith(
            'energy')][0]), 'qha:energy')
        f = np.array([nums(s) for s in lines if 'frequency:' in s])
        exact(ctx, r.frequencies.reshape(f.shape), f, 'qha:frequencies')
        exact(ctx, r.weights, [float(s.split(':')[1]) for s in lines
                               if 'weight:' in s], 'qha:weights')
        exact(ctx, r.weights.sum(), float(r.total_q_points), 'qha:total')


def groups(tier):
    k = 1 if tier == 'quick' else 40
    return [Group('phonon', 160 * k, phonon),
            Group('elastic', 160 * k, elastic),
            Group('table', 200 * k, table),
            Group('shipped', 3, shipped)]
