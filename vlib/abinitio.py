"""Writers of ab initio outputs (CRYSTAL, phonopy/VASP) from known data."""
import os

import numpy as np

SYMBOLS = {1: 'H', 6: 'C', 8: 'O', 11: 'NA', 12: 'MG', 13: 'AL', 14: 'SI',
           20: 'CA', 26: 'FE', 40: 'ZR', 57: 'LA', 92: 'U'}
STARS = ' ' + '*' * 79
NOISE = ['[ ... omissis ... ]', '',
         ' TTTTTTTTTTTTTTTTTTTTTTTTTTTTTT SDIK        TELAPSE        0.80 '
         'TCPU        0.61',
         ' INFORMATION **** EXCBUF **** EXCH. BIPO BUFFER: WORDS USED =  56146',
         ' THERE ARE NO SYMMETRY ALLOWED DIRECTIONS',
         ' CAPPA:IS1 12;IS2 12;IS3 12; K PTS MONK NET  72; SYMMOPS:K SPACE  48',
         ' GCALCO - MAX INDICES DIRECT LATTICE VECTOR    14    14    14']


def noise(rng, n=4):
    return [NOISE[int(i)] for i in
            rng.integers(0, len(NOISE), int(rng.integers(0, n + 1)))]


def lattice(rng, volume):
    """Rows of a random cell, of either handedness, of this volume."""
    while True:
        m = np.eye(3) + rng.uniform(-0.45, 0.45, (3, 3))
        if abs(np.linalg.det(m)) > 0.25:
            break
    if rng.random() < 0.4:
        m = m[[1, 0, 2]]
    m *= (volume / abs(np.linalg.det(m)))**(1. / 3.)
    return np.array([[float('%.12E' % x) for x in r] for r in m])


def atoms(rng, n):
    z = rng.choice(sorted(SYMBOLS), n)
    return z, np.round(rng.uniform(-0.5, 0.5, (n, 3)), 10)


def atom_lines(z, pos):
    return ['%7d T %3d %-2s %s' % (i + 1, z[i], SYMBOLS[int(z[i])],
                                   ' '.join('%19.12E' % x for x in pos[i]))
            for i in range(len(z))]


def cell_block(head, z, pos, volume, density=None):
    """A CRYSTAL cell: header, banner, cell parameters, atoms (from +11)."""
    a = volume**(1. / 3.)
    dens = '' if density is None else ' - DENSITY %6.3f g/cm^3' % density
    return [
        head,
        ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
        STARS,
        ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 '
        'ANGSTROM',
        ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=%14.6f%s' % (volume, dens),
        '         A              B              C           ALPHA      BETA '
        '      GAMMA ',
        ' %14.8f %14.8f %14.8f  %10.6f%10.6f%10.6f' % (a, a, a, 90, 90, 90),
        STARS,
        ' ATOMS IN THE ASYMMETRIC UNIT %4d - ATOMS IN THE UNIT CELL: %4d' % (
            len(z), len(z)),
        '     ATOM                 X/A                 Y/B                 '
        'Z/C    ',
        STARS] + atom_lines(z, pos) + [
        '', ' TRANSFORMATION MATRIX PRIMITIVE-CRYSTALLOGRAPHIC CELL',
        '  1.0000  0.0000  0.0000  0.0000  1.0000  0.0000  0.0000  0.0000  '
        '1.0000', '']


def consistent_block(z, pos, volume):
    """The initial geometry of an edited cell: atoms from +10."""
    a = volume**(1. / 3.)
    return [
        ' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', STARS,
        ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 '
        'ANGSTROM',
        ' PRIMITIVE CELL - CENTRING CODE 1/0 VOLUME=%14.6f - DENSITY  3.000 '
        'g/cm^3' % volume,
        '         A              B              C           ALPHA      BETA '
        '      GAMMA ',
        ' %14.8f %14.8f %14.8f  %10.6f%10.6f%10.6f' % (a, a, a, 90, 90, 90),
        STARS,
        ' ATOMS IN THE ASYMMETRIC UNIT %4d - ATOMS IN THE UNIT CELL: %4d' % (
            len(z), len(z)),
        '     ATOM                 X/A                 Y/B                 '
        'Z/C    ',
        STARS] + atom_lines(z, pos) + ['']


def lattice_block(lat):
    return [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)',
            '          X                    Y                    Z'] + [
        ' ' + ' '.join('%20.12E' % x for x in r) for r in lat] + ['']


def expansion_block(dim):
    return [' * SUPERCELL OPTION',
            ' EXPANSION MATRIX OF PRIMITIVE CELL'] + [
        '  E%d %s' % (i + 1, ' '.join('%10.3f' % x for x in r))
        for i, r in enumerate(dim)] + [
        ' NUMBER OF ATOMS PER SUPERCELL', '']


def mode_block(freq, groups):
    """Frequencies of one q-point; groups: sizes of degenerate sets."""
    out = [' MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS  '
           '  RAMAN',
           '             (HARTREE**2)   (CM**-1)     (THZ)             '
           '(KM/MOL)']
    i = 0
    for g in groups:
        f = freq[i]
        out.append(' %4d-%4d   %11.4E %11.4f %9.4f  (F1u)   I (     0.00)   '
                   'I' % (i + 1, i + g, f * abs(f) * 2e-11, f,
                          f * 0.0299792458))
        i += g
    return out + ['']


def mode_groups(rng, n, degenerate=True):
    out = []
    while sum(out) < n:
        g = int(rng.integers(1, 4) if rng.random() < 0.8 else
                rng.integers(4, 9)) if degenerate else 1
        out.append(min(g, n - sum(out)))
    return out


def modes(rng, nq, nmodes):
    """(nq, nmodes) frequencies rounded as CRYSTAL prints them."""
    f = np.round(np.sort(rng.uniform(20, 1500, (nq, nmodes)), axis=1), 4)
    if rng.random() < 0.6:
        f[0, :3] = 0.0
    if rng.random() < 0.3:
        f[-1, 0] = -abs(f[-1, 0]) - 1.5
    return f


def crystal_phonon(path, rng, d):
    """A CRYSTAL FREQCALC output.

    d: kind 'gamma' | 'supercell' | 'dispersion' | 'interpolated', natom (of
    the primitive cell), z, pos, lattice (primitive), dim, energy (of the
    calculated cell, as printed), freq (nq, nmodes), groups, and for the
    dispersion kinds weights, coords (integers), shrink.
    """
    out = noise(rng)
    sup = d['kind'] != 'gamma'
    det = int(round(abs(np.linalg.det(d['dim']))))
    vol = abs(np.linalg.det(d['lattice']))
    out += [' CRYSTAL CALCULATION'] + noise(rng)
    if sup:
        out += consistent_block(d['z'], d['pos'], vol) + noise(rng)
        out += expansion_block(d['dim']) + noise(rng)
        lat = np.dot(d['dim'], d['lattice'])
        z = np.repeat(d['z'], det)
        pos = np.repeat(d['pos'], det, axis=0)
    else:
        out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '']
        lat, z, pos = d['lattice'], d['z'], d['pos']
    out += noise(rng)
    out += cell_block(' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE '
                      'SYSTEM    3', z, pos, vol * (det if sup else 1), 3.0)
    if rng.random() < 0.5:
        out += [' CRYSTALLOGRAPHIC CELL (VOLUME=%20.8f)' % (4 * vol),
                ' COORDINATES IN THE CRYSTALLOGRAPHIC CELL', STARS]
        out += atom_lines(z[:1], pos[:1] * 0.5)
    out += [' T = ATOM BELONGING TO THE ASYMMETRIC UNIT'] + noise(rng)
    out += lattice_block(lat)
    out += [' CARTESIAN COORDINATES - PRIMITIVE CELL'] + noise(rng)
    if d['kind'] in ('dispersion', 'interpolated'):
        out += [' *' + '*' * 60,
                ' * PHONON FREQUENCIES AT A SET OF K POINTS BY USING A '
                'SUPERCELL', ' *' + '*' * 60]
        mesh = [' *  %4d  %8.3f   %3d %3d %3d' % (
            i + 1, w, *c) for i, (w, c) in enumerate(
                zip(d['weights'], d['coords']))]
        mesh += [' * WITH SHRINKING FACTORS: IS1 = %2d IS2 = %2d IS3 = %2d'
                 % tuple(d['shrink'])]
        nq = len(d['weights'])
        if d['kind'] == 'dispersion':
            out += [' * THAT PERMITS THE CALCULATION OF MODES AT  %4d  K '
                    'POINTS BELOW' % nq]
            out += [' *', ' *   K       WEIGHT       COORD'] + mesh
        else:
            out += [' * THAT PERMITS THE CALCULATION OF MODES AT  %4d  K '
                    'POINTS BELOW' % 1]
            out += [' *', ' *   K       WEIGHT       COORD',
                    ' *     1     1.000     0   0   0',
                    ' * WITH SHRINKING FACTORS: IS1 =  1 IS2 =  1 IS3 =  1']
            out += [' * ACTIVATED INTERPOLATION OF THE HESSIAN UP TO  %4d  K '
                    'POINTS BELOW' % nq]
            out += [' *'] * 7 + [' *   K       WEIGHT       C.']
            out += mesh
    out += noise(rng)
    out += [' NUMERICAL GRADIENT COMPUTED WITH A SINGLE DISPLACEMENT',
            '   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC'
            '      DE       SYM',
            '    CENTRAL POINT  %20.12E   10     0.0000E+00   48'
            % d['energy'],
            '    1 MG DX        %20.12E    6     1.1111E-05    8'
            % (d['energy'] + 1.1111e-5), '']
    out += noise(rng)
    out += [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND '
            'HARMONIC TRANSVERSE', ' OPTICAL (TO) FREQUENCIES IN CM-1', '']
    for q in range(len(d['freq'])):
        if d['kind'] in ('dispersion', 'interpolated'):
            out += [' DISPERSION K POINT NUMBER %6d' % (q + 1), '']
        out += mode_block(d['freq'][q], d['groups'][q]) + noise(rng, 2)
    out += [' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:06:37.4']
    return save(path, out)


def crystal_qha(path, rng, d):
    """A CRYSTAL QHA output; d: z, pos (calculated cell), lattices (points,
    3, 3), energies, freq (nmodes, points), dim, order (of calculation)."""
    out = noise(rng) + [' CRYSTAL CALCULATION']
    vols = np.abs(np.linalg.det(d['lattices']))
    det = int(round(abs(np.linalg.det(d['dim']))))
    out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '']
    if d.get('print_dim') or np.any(np.asarray(d['dim']) != np.eye(3)):
        out += expansion_block(d['dim'])
    out += cell_block(' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE '
                      'SYSTEM    3', d['z'], d['pos'], vols[0] * 1.01, 3.0)
    out += lattice_block(d['lattices'][0] * 1.01) + noise(rng)
    for k in d['order']:
        out += noise(rng)
        out += cell_block(' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE '
                          'SYSTEM      3', d['z'], d['pos'], vols[k])
        out += lattice_block(d['lattices'][k]) + noise(rng)
    out += [' ' + '*' * 60, ' * QUASI-HARMONIC APPROXIMATION', ' ' + '*' * 60]
    out += noise(rng)
    out += [' SORTING VOLUMES/ENERGIES', '', '     VOLUME (A^3)      ENERGY '
            '(AU)', ' ' + '-' * 50]
    out += [' %18.10f %22.12E' % (vols[k], d['energies'][k])
            for k in range(len(vols))]
    out += ['', ' ' + '-' * 50] + noise(rng)
    for i, f in enumerate(d['freq']):
        out += [' FREQUENCY #  %4d' % (i + 1), '',
                '     VOLUME (A^3)    FREQUENCY (CM^-1)  FITTED']
        out += [' %18.8f %16.4f' % (vols[k], f[k]) for k in range(len(vols))]
        out += ['', ' FITTING COEFFICIENTS OF FREQUENCY'] + noise(rng, 2)
    out += [' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:06:37.4']
    return save(path, out)


def crystal_soec(path, rng, C, density, completed=True, option=True):
    """A CRYSTAL ELASTCON output; density in g/cm^3 as printed there."""
    z, pos = atoms(rng, int(rng.integers(1, 6)))
    vol = float(rng.uniform(10, 200))
    out = noise(rng)
    if rng.random() < 0.5:
        out += cell_block(' INITIAL GEOMETRY', z, pos, vol, density + 1.5)
    out += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '']
    out += noise(rng)
    out += cell_block(' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE '
                      'SYSTEM    3', z, pos, vol, density)
    out += lattice_block(lattice(rng, vol)) + noise(rng)
    if option:
        out += [' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI'
                '                *'] + noise(rng)
    for _ in range(int(rng.integers(0, 3))):
        out += cell_block(' DEFORMED GEOMETRY', z, pos, vol * 1.01,
                          density * 0.99) + noise(rng)
    if completed:
        out += ['                           FINAL RESULTS START', STARS]
    out += noise(rng)
    out += [' SYMMETRIZED ELASTIC CONSTANTS FOR TRICLINIC    CASE, IN GPa',
            '']
    for i in range(6):
        out.append(' |' + ' ' * (9 * i) + ''.join(
            '%9.3f' % x for x in C[i, i:]) + ' |')
    out += ['', '', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', '']
    S = np.linalg.inv(C) * 1e3
    for i in range(6):
        out.append(' |' + ' ' * (9 * i) + ''.join(
            '%9.4f' % x for x in S[i, i:]) + ' |')
    return save(path, out)


VASP_ORDER = [0, 1, 2, 5, 3, 4]      # XX YY ZZ XY YZ ZX in Voigt indices
VASP_LABEL = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']


def outcar_block(title, C):
    """One table of elastic moduli (C in GPa, Voigt order)."""
    out = [title, ' Direction    XX          YY          ZZ          XY'
           '          YZ          ZX', ' ' + '-' * 80]
    M = C[np.ix_(VASP_ORDER, VASP_ORDER)] * 10.
    for i in range(6):
        out.append(' %s     ' % VASP_LABEL[i] + ''.join(
            '%12.4f' % x for x in M[i]))
    return out + [' ' + '-' * 80, '', '']


def outcar(path, rng, C, total=True):
    """A VASP OUTCAR with elastic moduli; C is the tensor to be found."""
    out = [' vasp.5.4.4.18Apr17'] + noise(rng)
    other = C + np.diag(rng.uniform(5, 50, 6).round(3))
    clamped = other if total else C
    out += outcar_block(' ELASTIC MODULI  (kBar)', clamped + 0.01)
    out += outcar_block(' SYMMETRIZED ELASTIC MODULI (kBar)', clamped)
    if total:
        out += noise(rng)
        out += outcar_block(' ELASTIC MODULI CONTR FROM IONIC RELAXATION '
                            '(kBar)', C - other)
        out += outcar_block(' TOTAL ELASTIC MODULI (kBar)', C)
    out += noise(rng)
    return save(path, out)


def phonopy(base, rng, d, energy=True):
    """base.yaml, base_disp.yaml and base.xml from d: natom, z, pos,
    lattice, dim, energy (eV), thz (nq, nmodes), weights, qpos."""
    nq = len(d['weights'])
    out = ['mesh: [ %5d, %5d, %5d ]' % tuple(d['shrink']),
           'nqpoint: %-7d' % nq, 'reciprocal_lattice:']
    rec = np.linalg.inv(d['lattice']).T
    out += ['- [ %s ]' % ', '.join('%15.12f' % x for x in r) for r in rec]
    out += ['natom:   %-7d' % d['natom'], 'lattice:']
    out += ['- [ %s ]' % ', '.join('%20.12f' % x for x in r)
            for r in d['lattice']]
    out += ['points:']
    for k in range(d['natom']):
        out += ['- symbol: %-2s # %d' % (
            SYMBOLS[int(d['z'][k])].capitalize(), k + 1),
            '  coordinates: [ %s ]' % ', '.join(
                '%18.15f' % x for x in d['pos'][k]),
            '  mass: 24.305000']
    out += ['', 'phonon:']
    # what phonopy writes next to the frequencies, when asked
    extra = [k for k in ('group_velocity', 'eigenvector', 'ir_label')
             if rng.random() < 0.2]
    before = bool(rng.random() < 0.4)
    swapped = bool(rng.random() < 0.2)
    for q in range(nq):
        keys = ['q-position: [ %s ]' % ', '.join(
            '%12.7f' % x for x in d['qpos'][q]),
            'distance_from_gamma: %12.9f' % 0.1,
            'weight: %-5d' % d['weights'][q]]
        if swapped:
            keys.reverse()
        out += ['- ' + keys[0]] + ['  ' + k for k in keys[1:]] + ['  band:']
        for j, f in enumerate(d['thz'][q]):
            more = []
            for k in extra:
                if k == 'group_velocity':
                    more += ['    group_velocity: [ %12.7f, %12.7f, %12.7f ]'
                             % tuple(rng.uniform(-9, 9, 3))]
                elif k == 'eigenvector':
                    more += ['    eigenvector:']
                    for a in range(min(2, d['natom'])):
                        more += ['    - # atom %d' % (a + 1)] + [
                            '      - [ %17.14f, %17.14f ]' % tuple(
                                rng.uniform(-1, 1, 2)) for _ in range(3)]
                else:
                    more += ['    ir_label: T1u']
            fr = ['    frequency: %15.10f' % f]
            out += ['  - # %d' % (j + 1)] + (
                more + fr if before else fr + more)
        out += ['']
    save(base + '.yaml', out)
    det = int(round(abs(np.linalg.det(d['dim']))))
    sup = np.dot(d['dim'], d['lattice'])
    out = ['phonopy:', '  version: 2.4.1', 'supercell_matrix:']
    out += ['- [ %s ]' % ', '.join('%3d' % x for x in r) for r in d['dim']]
    out += ['supercell:', '  lattice:']
    out += ['  - [ %s ]' % ', '.join('%20.12f' % x for x in r) for r in sup]
    out += ['  points:']
    for k in range(d['natom'] * det):
        out += ['  - symbol: %-2s # %d' % (
            SYMBOLS[int(d['z'][k // det])].capitalize(), k + 1),
            '    coordinates: [ %s ]' % ', '.join(
                '%18.15f' % x for x in d['pos'][k // det])]
    save(base + '_disp.yaml', out)
    if energy:
        def table(e, ind):
            return [ind + '<energy>'] + [
                ind + ' <i name="%s"> %16.8f </i>' % (n, e + s)
                for n, s in (('e_fr_energy', -0.01), ('e_wo_entrp', 0.),
                             ('e_0_energy', 0.02))] + [ind + '</energy>']
        out = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>']
        for k in range(d.get('steps', 0)):
            out += [' <calculation>'] + table(d['energy'] + 1. + k, '  ') + \
                [' </calculation>']
        out += [' <calculation>', '  <scstep>']
        out += table(d['energy'] + 3.25, '   ') + ['  </scstep>']
        out += table(d['energy'], '  ') + [' </calculation>', '</modeling>']
        save(base + '.xml', out)
    return base + '.yaml'


def save(path, lines):
    os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, 'w', encoding='utf8') as f:
        f.write('\n'.join(lines) + '\n')
    return path
