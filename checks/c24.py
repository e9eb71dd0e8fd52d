"""C24: generated inputs carry the ab initio data faithfully."""
import os

import numpy as np
import yaml

from vlib import abinitio, cli, elastic, gen, runs
from vlib.core import Group

PROPERTY = 'C24'
RULE = ('ab initio outputs are written from known data in the layouts of '
        'CRYSTAL (Gamma, supercell, SCELPHONO with and without Hessian '
        'interpolation, QHA, ELASTCON), phonopy+VASP and VASP OUTCAR, with '
        'random noise lines between the sections, turned into Quantas inputs '
        'by the real inpgen command and read back both with an independent '
        'YAML/text parser and with the program readers. A case is non-trivial '
        'when its (interface, kind, files, atoms, q-points, reference, '
        'values) signature is new. Refusals: lists whose files disagree, '
        'outputs of the wrong kind or unfinished.')
MIN = {'oracle_evaluations': 1500, 'values_compared': 8000, 'files_read': 250,
       'refused': 40, 'distinct': 150, 'references_nonzero': 15}
ASSUMPTIONS = [
    'the layouts are those of the outputs used by the repository tests and '
    'documentation, with supercell, QHA and phonopy layouts rebuilt from the '
    'anchors the readers look for',
    'numbers in generated inputs are compared at the precision of the '
    'written file (volume 1e-8, energy 12 digits, frequency 1e-10)']
CM = 29979245800.0


def base(rng, kind, nat=None, dim=None, mesh=None):
    """Everything the files of one list have in common."""
    big = nat is None and rng.random() < 0.1
    nat = nat or int(rng.integers(20, 48) if big else rng.integers(1, 5))
    z, pos = abinitio.atoms(rng, nat)
    det = 1 if kind == 'gamma' else int(rng.integers(2, 9))
    d = {'kind': kind, 'natom': nat, 'z': z, 'pos': pos,
         'dim': np.eye(3, dtype=int) if kind == 'gamma' else
         gen.supercell(rng, det) if dim is None else dim,
         'weights': [1], 'coords': [[0, 0, 0]], 'shrink': [1, 1, 1],
         'volume0': float(rng.uniform(9, 200)),
         'energy0': -float(10**rng.uniform(0.3, 3.5))}
    det = int(round(abs(np.linalg.det(d['dim']))))
    nq = 1
    if kind in ('dispersion', 'interpolated'):
        nq = int(rng.integers(6, 14) if rng.random() < 0.1 else
                 rng.integers(1, 6))
        d['weights'] = [1] + [int(w) for w in rng.integers(1, 25, nq - 1)]
        d['coords'] = [[0, 0, 0]] + rng.integers(0, 4, (nq - 1, 3)).tolist()
        d['shrink'] = [int(s) for s in rng.integers(1, 7, 3)]
    d['nmodes'] = 3 * nat * (det if kind == 'supercell' else 1)
    d['nq'] = nq
    d['groups'] = [abinitio.mode_groups(rng, d['nmodes'])
                   for _ in range(nq)]
    return d


def image(rng, b, k):
    """The k-th file of a list: same crystal, another volume."""
    d = dict(b)
    det = int(round(abs(np.linalg.det(d['dim']))))
    d['lattice'] = abinitio.lattice(rng, b['volume0'] * (0.92 + 0.03 * k))
    cell = b['energy0'] * (1 if d['kind'] == 'gamma' else det)
    d['energy'] = float('%.12E' % (cell * (1 + 1e-4 * rng.random())))
    f = abinitio.modes(rng, d['nq'], d['nmodes'])
    for q in range(d['nq']):
        i = 0
        for g in d['groups'][q]:
            f[q, i:i + g] = f[q, i]
            i += g
    d['freq'] = f
    if d['kind'] in ('dispersion', 'interpolated') and rng.random() < 0.4:
        # files may order the same mesh differently: the reference counts
        d['weights'] = [1] + [int(w) for w in
                              rng.integers(1, 25, d['nq'] - 1)]
        d['shrink'] = [int(s) for s in rng.integers(1, 7, 3)]
    return d


def expected(d):
    """What one CRYSTAL output says: natom, volume, energy, freq, q, w."""
    det = int(round(abs(np.linalg.det(d['dim']))))
    vol = abs(np.linalg.det(d['lattice']))
    if d['kind'] == 'supercell':
        return d['natom'] * det, vol * det, d['energy']
    if d['kind'] == 'gamma':
        return d['natom'], vol, d['energy']
    return d['natom'], vol, d['energy'] / det


def title(rng):
    return gen.pick(rng, runs.TITLES + (
        'MgO: periclase', '# 3', 'a - b', "it's", '{x}', '- item', '3.14',
        'null', '"quoted"', '@home', 'key: value: other', '[1, 2]', '%x'))


def inpgen(ctx, wd, args, job, key):
    o = cli.must(ctx, ['inpgen'] + args, stdin=job + '\n', cwd=wd, key=key)
    return o


def read(ctx, wd, path, job, natom, dim, vols, enes, freq, weights, qpos,
         ftol=6e-11):
    """Compare the generated input with the source, twice."""
    path = os.path.join(wd, path)
    ctx.expect(os.path.isfile(path), 'no-input', 'no ' + path)
    with open(path, encoding='utf8') as f:
        doc = yaml.safe_load(f)
    nq, nm, nv = freq.shape
    ctx.same(str(doc['job']), job, 'job')
    ctx.same(int(doc['natom']), int(natom), 'natom')
    ctx.same(np.array(doc['supercell'], float), np.array(dim, float), 'dim')
    ctx.same(int(doc['qpoints']), nq, 'qpoints')
    ctx.close(doc['volume'], vols, 'volume', rtol=1e-10, atol=6e-9)
    ctx.close(doc['energy'], enes, 'energy', rtol=2e-12)
    ctx.same(len(doc['phonon']), nq, 'phonon-entries')
    for q in range(nq):
        e = doc['phonon'][q]
        ctx.same(float(e['weight']), float(weights[q]), 'weight')
        ctx.close(e['q-position'], qpos[q], 'q-position', atol=6e-8)
        ctx.same(len(e['band']), nm, 'bands')
        ctx.close([b['frequency'] for b in e['band']], freq[q], 'frequency',
                  rtol=1e-14, atol=ftol)
    from quantas.IO.qha_reader import QHAInputFileReader
    r = QHAInputFileReader(path)
    ctx.expect(r.completed, 'unreadable', str(r.error))
    ctx.same(r.jobname, job, 'reader-job')
    ctx.same(int(r.natoms), int(natom), 'reader-natom')
    ctx.same(int(r.qpoints), nq, 'reader-qpoints')
    ctx.close(r.volume, vols, 'reader-volume', rtol=1e-10, atol=6e-9)
    ctx.close(r.energy, enes, 'reader-energy', rtol=2e-12)
    ctx.close(r.frequencies, freq, 'reader-frequency', rtol=1e-14, atol=ftol)
    ctx.close(r.weights, np.array(weights, float), 'reader-weight')


def options(rng, wd, name, files, interface, ref=None):
    """Arguments for a list of files (or a single one) and output name."""
    args = ['ha']
    if len(files) == 1 and rng.random() < 0.7:
        args += [files[0]]
    else:
        lst = name + '.list'
        nl = gen.pick(rng, ('\n', '\n', '\n', ' \n', '\r\n'))
        with open(os.path.join(wd, lst), 'w', newline='') as f:
            f.write(nl.join(files) + (nl if rng.random() < 0.5 else ''))
        args += [lst, '-l' if rng.random() < 0.5 else '--list']
    out = 'quantas_ha'
    if rng.random() < 0.7:
        out = gen.pick(rng, ('out', 'gen.input', 'sub_1', 'a b'))
        args += [gen.pick(rng, ('-o', '--outfile')), out]
    if interface != 'crystal' or rng.random() < 0.5:
        args += ['-i', interface]
    if ref:
        args += [gen.pick(rng, ('-r', '--ref')), ref]
    return args, out + '.yaml'


KINDS = ('gamma', 'supercell', 'dispersion', 'interpolated')


def crystal(ctx, rng, index):
    wd = cli.fresh(ctx)
    b = base(rng, KINDS[index % 4])
    n = int(rng.integers(10, 15) if rng.random() < 0.1 and b['natom'] < 9
            else rng.integers(1, 6))
    ims = [image(rng, b, k) for k in range(n)]
    order = rng.permutation(n)
    names = []
    for k in order:
        names.append(gen.pick(rng, ('f%d.out', 'v.%d.out', 'sub/f%d',
                                   'my file %d.out')) % k)
        abinitio.crystal_phonon(os.path.join(wd, names[-1]), rng, ims[k])
    ims = [ims[k] for k in order]
    ref = int(rng.integers(0, n))
    args, out = options(rng, wd, 'files', names, 'crystal', ref)
    job = title(rng)
    ctx.describe(kind=b['kind'], n=n, natom=b['natom'], nq=b['nq'], ref=ref,
                 args=args, job=job)
    inpgen(ctx, wd, args, job, b['kind'])
    r = ims[ref]
    e = [expected(d) for d in ims]
    ctx.count('files_read', n)
    ctx.count('references_nonzero', ref > 0)
    qpos = np.array(r['coords'], float) / np.array(r['shrink'], float)
    if b['kind'] in ('gamma', 'supercell'):
        qpos = np.zeros((1, 3))
    read(ctx, wd, out, job, e[0][0], r['dim'], [x[1] for x in e],
         [x[2] for x in e], np.stack([d['freq'] for d in ims], -1),
         r['weights'], qpos)
    ctx.nontrivial(b['kind'], n, b['natom'], b['nq'], ref, e[0][1])


def crystal_qha(ctx, rng, index):
    wd = cli.fresh(ctx)
    nv = int(rng.integers(4, 9) if rng.random() < 0.85 else
             rng.integers(9, 16))
    nat = int(rng.integers(1, 4) if rng.random() < 0.9 else
              rng.integers(12, 40))
    det = 1 if index % 2 else int(rng.integers(2, 5))
    dim = gen.supercell(rng, det)
    z, pos = abinitio.atoms(rng, nat * det)
    v0 = rng.uniform(10, 150)
    gap = 0.03 if rng.random() < 0.5 else 10**rng.uniform(-3.3, -1.5)
    lats = np.array([abinitio.lattice(rng, v0 * det * (0.9 + gap * k))
                     for k in range(nv)])
    ene = np.array([float('%.12E' % x) for x in -np.abs(
        10**rng.uniform(1, 3.5) * (1 + 1e-4 * rng.random(nv)))])
    f0 = np.sort(rng.uniform(20, 1500, 3 * nat * det))
    freq = np.round(f0[:, None] * (1 + 0.1 * rng.standard_normal(
        (len(f0), nv))), 4)
    d = {'z': z, 'pos': pos, 'lattices': lats, 'energies': ene, 'dim': dim,
         'freq': freq, 'order': rng.permutation(nv),
         'print_dim': rng.random() < 0.3}
    abinitio.crystal_qha(os.path.join(wd, 'qha.out'), rng, d)
    args, out = options(rng, wd, 'x', ['qha.out'], 'crystal-qha')
    args[1:] = ['qha.out'] + [a for a in args[2:] if a not in ('-l',
                                                               '--list')]
    job = title(rng)
    ctx.describe(kind='crystal-qha', nv=nv, natom=nat, det=det, args=args)
    inpgen(ctx, wd, args, job, 'crystal-qha')
    ctx.count('files_read')
    vols = np.abs(np.linalg.det(lats)) / det
    read(ctx, wd, out, job, nat, dim, vols, ene / det,
         freq.reshape(det, 3 * nat, nv), np.ones(det), np.zeros((det, 3)))
    ctx.nontrivial('qha', nv, nat, det, vols[0])


def phonopy_case(rng, nat=None, nq=None):
    big = nat is None and nq is None and rng.random() < 0.1
    nat = nat or int(rng.integers(20, 40) if big else rng.integers(1, 5))
    nq = nq or int(rng.integers(1, 6) if rng.random() < 0.9 or big else
                   rng.integers(10, 30))
    z, pos = abinitio.atoms(rng, nat)
    return {'natom': nat, 'z': z, 'pos': pos,
            'dim': gen.supercell(rng, int(rng.integers(1, 9))),
            'weights': [int(w) for w in rng.integers(1, 30, nq)],
            'qpos': np.round(rng.uniform(-0.5, 0.5, (nq, 3)), 7),
            'shrink': [int(s) for s in rng.integers(1, 9, 3)]}


def phonopy_image(rng, b, k):
    d = dict(b)
    lat = abinitio.lattice(rng, 40. * (0.92 + 0.03 * k))
    d['lattice'] = np.round(lat, 12)
    d['energy'] = float('%.8f' % -rng.uniform(1, 2000))
    f = abinitio.modes(rng, len(b['weights']), 3 * b['natom'])
    d['thz'] = np.round(f * CM * 1e-12, 10)
    d['steps'] = int(rng.integers(0, 3))
    return d


def phonopy(ctx, rng, index):
    wd = cli.fresh(ctx)
    b = phonopy_case(rng)
    n = int(rng.integers(10, 14) if rng.random() < 0.1 and b['natom'] < 9
            else rng.integers(1, 5))
    ims = [phonopy_image(rng, b, k) for k in range(n)]
    has = [rng.random() < 0.85 for _ in range(n)]
    names = []
    for k in range(n):
        nm = gen.pick(rng, ('mesh%d', 'v.%d', 'sub/m%d', 'my mesh %d')) % k
        os.makedirs(os.path.join(wd, 'sub'), exist_ok=True)
        names.append(nm + '.yaml')
        abinitio.phonopy(os.path.join(wd, nm), rng, ims[k], has[k])
    ref = int(rng.integers(0, n))
    args, out = options(rng, wd, 'files', names, 'phonopy', ref)
    job = title(rng)
    ctx.describe(kind='phonopy', n=n, natom=b['natom'],
                 nq=len(b['weights']), ref=ref, args=args)
    inpgen(ctx, wd, args, job, 'phonopy')
    ctx.count('files_read', n)
    ctx.count('references_nonzero', ref > 0)
    freq = np.stack([d['thz'] * 1e12 / CM for d in ims], -1)
    read(ctx, wd, out, job, b['natom'], b['dim'],
         [abs(np.linalg.det(d['lattice'])) for d in ims],
         [d['energy'] if h else 0. for d, h in zip(ims, has)], freq,
         b['weights'], b['qpos'], ftol=2e-10)
    ctx.nontrivial('phonopy', n, b['natom'], b['weights'], ref)


def soec(ctx, rng, index):
    wd = cli.fresh(ctx)
    cls = elastic.CLASSES[index % len(elastic.CLASSES)]
    C = elastic.tensor(rng, cls)[0]
    if rng.random() < 0.4:
        C = elastic.rotate(C, elastic.rotation(rng))
    rho = None
    if index % 2:
        C = np.round(C, 3)
        rho = float(np.round(rng.uniform(0.8, 9.9), 3))
        name, iface = 'el.out', 'crystal'
        abinitio.crystal_soec(os.path.join(wd, name), rng, C, rho)
    else:
        C = np.round(C, 5)
        name, iface = 'OUTCAR', 'vasp'
        abinitio.outcar(os.path.join(wd, name), rng, C,
                        total=rng.random() < 0.6)
    args = ['soec', name]
    if iface != 'crystal' or rng.random() < 0.5:
        args += [gen.pick(rng, ('-i', '--interface')), iface]
    out = os.path.splitext(name)[0] + '_soec_input.dat'
    if rng.random() < 0.5:
        args += ['-o', 'given']
        out = 'given.dat'
    job = gen.pick(rng, runs.TITLES + ('', ' ', '300', '1 2 3', '1e-3 nan'))
    ctx.describe(kind=iface, cls=cls, args=args, C=C, rho=rho, job=job)
    inpgen(ctx, wd, args, job, 'soec')
    ctx.count('files_read')
    path = os.path.join(wd, out)
    ctx.expect(os.path.isfile(path), 'no-input', 'no ' + out)
    with open(path, encoding='utf8') as f:
        lines = f.read().splitlines()
    if job.strip():
        # a title made of numbers needs something to tell it from a row
        ctx.expect(lines[0].strip() == job if not numeric(job) else
                   job in lines[0], 'soec-title', '%r for %r' % (
                       lines[0], job))
    rows = np.array([[float(x) for x in ln.split()] for ln in lines[1:7]])
    ctx.close(rows, C, 'soec-written', rtol=0, atol=6e-5)
    ctx.expect(np.max(np.abs(rows)) > 0, 'soec-written', 'null matrix')
    if rho is not None:
        ctx.close(float(lines[7]), rho * 1e3, 'soec-density', atol=0.06)
    from quantas.IO.soec_reader import SOECInputFileReader
    r = SOECInputFileReader(path)
    ctx.expect(r.completed, 'unreadable', str(r.error))
    if job.strip():
        ctx.expect(job in r.jobname, 'soec-title', '%r read back as %r' % (
            job, r.jobname))
    ctx.close(np.array(r.stiffness, float), C, 'soec-read', rtol=0,
              atol=6e-5)
    if rho is not None:
        ctx.close(float(r.density), rho * 1e3, 'soec-density', atol=0.06)
    ctx.nontrivial(iface, cls, C)


def numeric(text):
    try:
        [float(x) for x in text.split()]
        return True
    except ValueError:
        return False


REFUSALS = ('natom', 'nq', 'soec-unfinished', 'wrong-crystal', 'wrong-qha',
            'wrong-soec', 'wrong-vasp', 'restart', 'few', 'missing',
            'no-disp', 'ref-high', 'ref-negative', 'phonopy-natom', 'atoms')


def refused(ctx, rng, index):
    """Files that do not belong together, or not supported: no input."""
    wd = cli.fresh(ctx)
    kind = REFUSALS[index % len(REFUSALS)]
    p = os.path.join
    args = None
    ctx.describe(kind=kind)
    if kind in ('natom', 'nq', 'missing', 'ref-high', 'ref-negative',
                'atoms'):
        ck = {'nq': 'dispersion'}.get(kind, gen.pick(rng, KINDS))
        b = base(rng, ck)
        n = int(rng.integers(2, 5))
        ims = [image(rng, b, k) for k in range(n)]
        bad = int(rng.integers(0, n))
        if kind in ('natom', 'atoms'):
            o = base(rng, ck, nat=b['natom'] + int(rng.integers(1, 3)))
            ims[bad] = image(rng, o, bad)
        if kind == 'nq':
            while True:
                o = base(rng, ck, nat=b['natom'])
                if o['nq'] != b['nq']:
                    break
            ims[bad] = image(rng, o, bad)
        names = ['f%d.out' % k for k in range(n)]
        for k in range(n):
            if kind == 'missing' and k == bad:
                continue
            abinitio.crystal_phonon(p(wd, names[k]), rng, ims[k])
        with open(p(wd, 'list'), 'w') as f:
            f.write('\n'.join(names))
        args = ['ha', 'list', '-l', '-i', 'crystal']
        if kind == 'ref-high':
            args += ['-r', n + int(rng.integers(0, 3))]
        if kind == 'ref-negative':
            args += ['-r', -int(rng.integers(1, 4))]
        if kind == 'natom':
            args += ['-r', int(rng.integers(0, n))]
    elif kind == 'phonopy-natom':
        b = phonopy_case(rng)
        o = phonopy_case(rng, nat=b['natom'] + 1, nq=len(b['weights']))
        c = phonopy_case(rng, nat=b['natom'], nq=len(b['weights']) + 1)
        second = o if rng.random() < 0.5 else c
        abinitio.phonopy(p(wd, 'a'), rng, phonopy_image(rng, b, 0))
        abinitio.phonopy(p(wd, 'b'), rng, phonopy_image(rng, second, 1))
        with open(p(wd, 'list'), 'w') as f:
            f.write('a.yaml\nb.yaml')
        args = ['ha', 'list', '-l', '-i', 'phonopy']
    elif kind == 'no-disp':
        abinitio.phonopy(p(wd, 'a'), rng, phonopy_image(
            rng, phonopy_case(rng), 0))
        os.remove(p(wd, 'a_disp.yaml'))
        args = ['ha', 'a.yaml', '-i', 'phonopy']
    elif kind in ('soec-unfinished', 'wrong-crystal'):
        C = elastic.tensor(rng, 'cubic')[0]
        if kind == 'wrong-crystal':     # not an elastic calculation
            abinitio.crystal_soec(p(wd, 'x'), rng, C, 3., option=False)
        else:
            abinitio.crystal_soec(p(wd, 'x'), rng, C, 3., completed=False)
        args = ['soec', 'x', '-i', 'crystal']
    elif kind in ('wrong-soec', 'wrong-vasp'):
        b = base(rng, 'gamma')
        abinitio.crystal_phonon(p(wd, 'x'), rng, image(rng, b, 0))
        args = ['soec', 'x', '-i',
                'vasp' if kind == 'wrong-vasp' else 'crystal']
    elif kind == 'wrong-qha':
        b = base(rng, 'gamma')
        abinitio.crystal_phonon(p(wd, 'x'), rng, image(rng, b, 0))
        args = ['ha', 'x', '-i', 'crystal-qha']
    elif kind in ('restart', 'few'):
        nv = 3 if kind == 'few' else 5
        z, pos = abinitio.atoms(rng, 2)
        d = {'z': z, 'pos': pos, 'dim': np.eye(3, dtype=int),
             'lattices': np.array([abinitio.lattice(rng, 20 + k)
                                   for k in range(nv)]),
             'energies': -rng.uniform(1, 2, nv),
             'freq': rng.uniform(10, 900, (6, nv)), 'order': range(nv)}
        abinitio.crystal_qha(p(wd, 'x'), rng, d)
        if kind == 'restart':
            with open(p(wd, 'x'), 'a') as f:
                f.write(' READING DATA FROM RESTART UNIT   30\n')
        args = ['ha', 'x', '-i', 'crystal-qha']
    before = cli.snapshot(wd)
    o = cli.run(['inpgen'] + args, stdin='title\n', cwd=wd)
    ctx.expect(not o.crash, 'refused:traceback', repr(o.exc) + str(args))
    ctx.expect(not o.ok, 'refused:accepted', 'inpgen %s completed on %s' % (
        args, kind))
    ctx.same(sorted(cli.snapshot(wd)), sorted(before), 'refused:files')
    ctx.expect(cli.ERROR in o.text, 'refused:silent', o.text[-300:])
    ctx.count('refused')
    ctx.nontrivial('refused', kind, index)


def groups(tier):
    k = 1 if tier == 'quick' else 12
    return [Group('crystal', 96 * k, crystal),
            Group('crystal-qha', 24 * k, crystal_qha),
            Group('phonopy', 24 * k, phonopy),
            Group('soec', 48 * k, soec),
            Group('refused', 60 * k, refused)]
