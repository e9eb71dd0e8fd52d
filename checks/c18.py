"""C18: unphysical elastic tensors are refused with a reason."""
import os

import numpy as np

from vlib import cli, elastic as el
from vlib.core import Group

PROPERTY = 'C18'
RULE = ('matrices made unphysical one way at a time - one to six negative '
        'or null eigenvalues from -1e-9 to -10 of the largest, broken '
        'symmetry from 2e-3 GPa up, missing, extra or ragged rows, words, '
        'NaN and infinities - in full and triangular forms through the soec '
        'command with any options and the calculator; and positive definite '
        'ones with condition numbers up to 1e7 and magnitudes over eight '
        'decades, which must be accepted; '
        'non-trivial = distinct (defect, size decade, entry point, form)')
MIN = {'distinct': 60, 'refused': 150, 'accepted': 40, 'indefinite': 80,
       'asymmetric': 20, 'shape': 20}
ASSUMPTIONS = ['rounding: eigenvalues closer to zero than 1e-12 of the '
               'largest are not generated, asymmetries below 1e-3 are '
               'tolerated']


def indefinite(rng):
    """Symmetric matrix with known signature."""
    w = 10**rng.uniform(0, 3, 6)
    n = int(rng.integers(1, 7)) if rng.random() < 0.3 else 1
    depth = float(10**rng.uniform(-9, 1))
    idx = rng.permutation(6)[:n]
    w[idx] = -depth * w.max() * 10**rng.uniform(-0.1, 0, n)
    Q, _ = np.linalg.qr(rng.standard_normal((6, 6)))
    C = (Q * w) @ Q.T
    return 0.5 * (C + C.T), 'negative^%d' % n, int(np.floor(np.log10(depth)))


def crystal_indefinite(rng):
    """Born criteria violated in a crystal class form."""
    for _ in range(200):
        cls = el.CLASSES[int(rng.integers(9))]
        C, cls = el.tensor(rng, cls)
        k = int(rng.integers(4))
        if k == 0:
            C[3, 3] *= -1
            if cls in ('cubic', 'hexagonal', 'trigonal_high', 'trigonal_low',
                       'tetragonal_high', 'tetragonal_low'):
                C[4, 4] *= -1
        elif k == 1:
            C[0, 1] = C[1, 0] = C[0, 0] * rng.uniform(1.01, 2)
        elif k == 2:
            C[:3, :3] = np.where(np.eye(3) > 0, C[:3, :3],
                                 -0.6 * C[:3, :3].max())
        else:
            C[2, 2] = -abs(C[2, 2])
        w = np.linalg.eigvalsh(C)
        if w[0] < -1e-9 * w[-1]:
            return C, 'born:%d:%s' % (k, cls), 0
    raise AssertionError


def singular(rng):
    """Exactly singular."""
    C, cls = el.tensor(rng)
    k = int(rng.integers(3))
    C = np.round(C, 3)
    if k == 0:
        C[5, :] = C[:, 5] = 0
    elif k == 1:
        C[:] = 0
        if rng.random() < 0.5:
            C[0, 0] = C[1, 1] = C[2, 2] = 100.0
    else:
        a = float(np.round(rng.uniform(50, 300)))
        C = np.diag([a, a, a, 30., 30., 30.])
        C[0, 1] = C[1, 0] = a
    return C, 'singular:%d' % k, 0


def entry(ctx, rng, wd, path, key, defect, must_have=None):
    """The run ends with an error and no result."""
    before = cli.snapshot(wd)
    opts = []
    if rng.random() < 0.3:
        opts += ['-q']
    if rng.random() < 0.2:
        opts += ['--polar']
    if rng.random() < 0.2:
        opts += ['-d']
    out = ('in_SOEC.hdf5', 'mine.hdf5')[int(rng.random() < 0.3)]
    if out == 'mine.hdf5':
        opts += ['-o', 'mine.hdf5']
    o = cli.run(['soec', os.path.basename(path)] + opts, cwd=wd)
    ctx.expect(not o.crash, key + ':traceback', 'traceback for %s: %r' % (
        defect, o.exc))
    after = cli.snapshot(wd)
    ctx.expect(not any(n.endswith('.hdf5') for n in after), key + ':result',
               'result file written for %s: %s\n%s' % (
                   defect, sorted(after), o.text[-400:]))
    ctx.same(after[os.path.basename(path)], before[os.path.basename(path)],
             key + ':input', 'input file changed')
    ctx.expect(not o.ok, key + ':banner', 'closing banner for %s' % defect)
    for n, c in after.items():
        ctx.expect(cli.BANNER.encode() not in c, key + ':banner',
                   'closing banner in %s for %s' % (n, defect))
    low = o.text.lower()
    ctx.expect(any(w in low for w in (
        'error', 'not definite positive', 'singular', 'should', 'too short',
        'expected', 'unstable', 'not ')), key + ':reason',
        'no reason given for %s: %r' % (defect, o.text[-400:]))
    ctx.count('refused')


def calculator(ctx, path, key, defect):
    from quantas.soec.soec import SOECCalculator
    calc = SOECCalculator(el.settings())
    err = calc.read_input(path)
    if err is None:
        calc.run()
        ctx.expect(not calc.completed, key + ':completed',
                   'analysis of %s completed' % defect)
        ctx.expect(bool(calc.error), key + ':reason', 'no error for %s' %
                   defect)
    else:
        ctx.expect(not calc.completed, key + ':completed')
        ctx.expect(isinstance(err, str) and err.strip() != '',
                   key + ':reason', repr(err))
    ctx.count('refused')


def case_indefinite(ctx, rng, i):
    C, what, depth = (indefinite, crystal_indefinite, indefinite,
                      singular)[i % 4](rng)
    form = ('full', 'upper', 'lower')[int(rng.integers(3))]
    rho = float(rng.uniform(900, 9000)) if rng.random() < 0.5 else None
    ctx.describe(what=what, depth=depth, form=form, C=C, density=rho)
    wd = cli.fresh(ctx)
    path = el.write(os.path.join(wd, 'in.dat'), C, rho, form)
    if i % 3:
        entry(ctx, rng, wd, path, 'indefinite', what)
    else:
        calculator(ctx, path, 'indefinite', what)
    ctx.count('indefinite')
    ctx.nontrivial(what, depth, form, i % 3 == 0)


def case_asymmetric(ctx, rng, i):
    C, cls = el.tensor(rng)
    i0, j0 = rng.permutation(6)[:2]
    d = float(10**rng.uniform(-2.7, 2)) * rng.choice([-1, 1])
    if abs(d) < 2e-3:
        d = 2e-3
    C = C.copy()
    C[i0, j0] += d
    ctx.describe(what='asymmetric', at=[i0, j0], d=d, C=C)
    wd = cli.fresh(ctx)
    path = el.write(os.path.join(wd, 'in.dat'), C, 3000. if i % 2 else None)
    if i % 3:
        entry(ctx, rng, wd, path, 'asymmetric', 'C%d%d off by %g' % (
            i0 + 1, j0 + 1, d))
    else:
        calculator(ctx, path, 'asymmetric', 'asymmetry %g' % d)
    ctx.count('asymmetric')
    ctx.nontrivial('asymmetric', int(i0), int(j0))


def case_shape(ctx, rng, i):
    C, cls = el.tensor(rng)
    form = ('full', 'upper', 'lower')[int(rng.integers(3))]
    rows = [['%.6f' % v for v in {'full': C[k], 'upper': C[k, k:],
                                  'lower': C[k, :k + 1]}[form]]
            for k in range(6)]
    what = ('missing row', 'missing value', 'extra value', 'word', 'nan',
            'inf', 'empty', 'five by five', 'comma', 'swapped')[i % 10]
    r = int(rng.integers(6))
    c = int(rng.integers(len(rows[r])))
    if what == 'missing row':
        del rows[r]
    elif what == 'missing value':
        del rows[r][c]
    elif what == 'extra value':
        rows[r].append('1.0')
    elif what == 'word':
        rows[r][c] = gen_word(rng)
    elif what in ('nan', 'inf'):
        rows[r][c] = what
        if form == 'full':
            rows[c][r] = what
    elif what == 'empty':
        rows = []
    elif what == 'five by five':
        rows = [row[:5] for row in rows[:5]]
    elif what == 'comma':
        rows[r][c] = rows[r][c].replace('.', ',')
    elif what == 'swapped':
        a = (r + 1 + int(rng.integers(5))) % 6
        if form == 'full':
            # breaks the symmetry
            rows[r], rows[a] = rows[a], rows[r]
            M = np.array([[float(v) for v in row] for row in rows])
            if np.abs(M - M.T).max() < 1e-2:
                return
        else:
            rows[r], rows[a] = rows[a], rows[r]
    wd = cli.fresh(ctx)
    path = os.path.join(wd, 'in.dat')
    text = 'title\n' + '\n'.join('  '.join(row) for row in rows) + '\n'
    with open(path, 'w') as f:
        f.write(text)
    ctx.describe(what=what, form=form, text=text)
    if i % 3:
        entry(ctx, rng, wd, path, 'shape', what)
    else:
        calculator(ctx, path, 'shape', what)
    ctx.count('shape')
    ctx.nontrivial(what, form, r)


def gen_word(rng):
    return ('abc', '1.0.0', '12e', '--', '1,000.0', '0x1F')[
        int(rng.integers(6))]


def case_accept(ctx, rng, i):
    """Positive definite matrices, however close to unstable."""
    k = i % 4
    if k == 0:
        C, what = el.tensor(rng, 'orthorhombic')
    else:
        w = 10**rng.uniform(0, 3, 6)
        w[int(rng.integers(6))] = w.max() * 10**rng.uniform(-7, 0)
        if k == 1:
            Q, _ = np.linalg.qr(rng.standard_normal((6, 6)))
            what = 'random'
        else:
            # block form: the fast route
            q, _ = np.linalg.qr(rng.standard_normal((3, 3)))
            Q = np.eye(6)
            Q[:3, :3] = q
            what = 'block'
        C = (Q * w) @ Q.T
        C = 0.5 * (C + C.T)
    if rng.random() < 0.4:
        # very soft or very hard as a whole
        C = C * float(10**rng.uniform(-4, 4))
        what += ' scaled'
    ctx.describe(what=what, eig=np.linalg.eigvalsh(C), C=C)
    if k == 3:
        wd = cli.fresh(ctx)
        el.write(os.path.join(wd, 'in.dat'), C, 2500. if i % 8 == 3 else None,
                 ('full', 'upper', 'lower')[i // 4 % 3])
        args = ['soec', 'in.dat'] + (['-q'] if i % 3 == 0 else [])
        cli.must(ctx, args, cwd=wd, log=os.path.join(wd, 'in_SOEC.txt')
                 if '-q' in args else None)
        ctx.expect(any(n.endswith('.hdf5') for n in os.listdir(wd)),
                   'accept:result', 'no result file')
    elif k == 1 and i % 8:
        calc = el.prepare(ctx, C)
        ctx.close(calc.soec.compliance @ C, np.eye(6), 'accept:inverse', 0,
                  1e-7)
    else:
        calc = el.analyse(ctx, C, 3000.)
        ctx.expect(not calc.error, 'accept', str(calc.error))
    ctx.count('accepted')
    ctx.nontrivial('accept', k, int(np.log10(np.linalg.cond(C))))


def groups(tier):
    k = 1 if tier == 'quick' else 25
    return [Group('accept', 64 * k, case_accept),
            Group('indefinite', 160 * k, case_indefinite),
            Group('asymmetric', 60 * k, case_asymmetric),
            Group('shape', 100 * k, case_shape)]
