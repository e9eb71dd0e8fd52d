"""C22: malformed input is refused cleanly and leaves nothing behind."""
import os

import h5py
import numpy as np

from vlib import abinitio, cli, elastic as el, gen, runs
from vlib.core import Group
from checks import c24

PROPERTY = 'C22'
RULE = ('valid documents of every kind are damaged in one or two ways that '
        'leave them malformed by the documented format: sections, lines, '
        'tokens and array items deleted, added or replaced by words, nulls, '
        'booleans, lists, not finite and out-of-range numbers, wrong counts, '
        'text cut at any byte, foreign and binary files, too few volumes; '
        'the reader must raise the error flag without exception, the command '
        'must show the error, write no result and not complete. Outputs of '
        'ab initio codes cut at any token are either refused or give exactly '
        'the same input as the intact one, without some lines they are '
        'refused or processed but never end in a traceback; result files cut '
        'or without datasets are refused; non-trivial = distinct damage')
MIN = {'distinct': 330, 'reader_refusals': 260, 'commands': 330,
       'command_refusals': 250, 'damages': 45}
ASSUMPTIONS = ['a damaged document that is still a valid document is not an '
               'error: only damages that break a documented rule are used',
               'an elastic input with an empty first line makes the reader '
               'raise IndexError, as the tests of the repository require',
               'an OUTCAR with the clamped-ion table only is a valid one']
WORDS = ('abc', '~', 'null', 'true', '.nan', '.inf', '-.inf', "''", '[ ]',
         '[ 1.0, 2.0 ]', '{ a: 1 }', '1.2.3', '0x', '1,5', '2020-01-01',
         '1.0 2.0', '--1', '1e', '12:30:xx', 'None', '- 1')


# -- phonon documents -------------------------------------------------------
def sections(lines):
    """Key -> range of lines, for the layout of gen.write_qha."""
    heads = [k for k, s in enumerate(lines) if s[:1].isalpha()] + [len(lines)]
    return {lines[a].split(':')[0]: (a, b)
            for a, b in zip(heads[:-1], heads[1:])}


def array_lines(lines):
    return [k for k, s in enumerate(lines) if s.strip().startswith(
        ('volume:', 'energy:', 'frequency:'))]


def split_array(s):
    a, b = s.index('['), s.rindex(']')
    return s[:a], [x.strip() for x in s[a + 1:b].split(',')]


def join_array(head, toks):
    return '%s[ %s ]' % (head, ', '.join(toks))


def damage_phonon(rng, lines, d):
    """One damage; returns (lines, its name) or raises IndexError."""
    lines = list(lines)
    sec = sections(lines)
    how = gen.pick(rng, (
        'key', 'count', 'token-less', 'token-more', 'token-word', 'cut',
        'line', 'no-weight', 'no-band', 'no-frequency', 'fewer-bands',
        'more-bands', 'fewer-q', 'volume', 'supercell', 'weight', 'nested',
        'scalar', 'indent', 'renamed', 'colon', 'energy-less', 'comma',
        'empty'))
    if how == 'empty':
        # consistently without volumes
        for k in array_lines(lines):
            lines[k] = join_array(split_array(lines[k])[0], [])
        return lines, how
    if how in ('key', 'renamed', 'colon'):
        k = gen.pick(rng, ('natom', 'supercell', 'qpoints', 'volume',
                           'energy', 'phonon'))
        a, b = sec[k]
        if how == 'key':
            del lines[a:b]
        elif how == 'renamed':
            lines[a] = gen.pick(rng, ('%ss', 'x%s', '%s_')) % k + \
                lines[a][len(k):]
        else:
            lines[a] = lines[a].replace(':', '', 1)
        return lines, how + ':' + k
    if how == 'count':
        k = gen.pick(rng, ('natom', 'qpoints'))
        n = d['natom'] if k == 'natom' else len(d['weights'])
        v = gen.pick(rng, [str(n + 1), str(n - 1), str(-n), '0', '%.1f' % (
            n + 0.5), '99999999999999999999', '[ %d, %d ]' % (n, n)] +
            list(WORDS))
        if v == 'true' and n == 1:
            how = 'count-bool'
        lines[sec[k][0]] = '%s: %s' % (k, v)
        return lines, '%s:%s:%s' % (how, k, v if not v.isdigit() else 'n')
    if how in ('token-less', 'token-more', 'token-word', 'nested', 'scalar',
               'comma'):
        i = gen.pick(rng, array_lines(lines))
        key = lines[i].split(':')[0].strip()
        head, toks = split_array(lines[i])
        k = int(rng.integers(len(toks)))
        if how == 'token-less':
            del toks[k]
            if not toks:
                lines[i] = head + '[ ]'
                return lines, how + ':' + key
        elif how == 'token-more':
            toks.insert(k, '1.5e+01')
        elif how == 'token-word':
            w = gen.pick(rng, WORDS)
            if w == '1.0 2.0' and len(toks) == 1:
                w = 'abc'
            if w == '- 1':
                w = '1 -'
            toks[k] = w
            how += ':' + w
        elif how == 'nested':
            toks = ['[ %s ]' % t for t in toks]
            if len(toks) == 1:
                toks = ['[ %s, 1.0 ]' % toks[0]]
        elif how == 'scalar':
            lines[i] = head + gen.pick(rng, (
                'abc', '', '~', '{ }', '1.5' if len(toks) > 1 else 'x'))
            return lines, how + ':' + key
        else:
            if len(toks) < 3:
                raise IndexError
            toks[0] = toks[0] + ' ' + toks[1]
            del toks[1]
        lines[i] = join_array(head, toks)
        return lines, how + ':' + key
    if how == 'energy-less':
        a = sec['energy'][0]
        head, toks = split_array(lines[a])
        lines[a] = join_array(head, toks[:len(toks) // 2] or ['1.0', '2.0'])
        return lines, how
    if how == 'cut':
        text = '\n'.join(lines).rstrip()
        k = int(rng.integers(0, len(text) - 1))
        return text[:k].split('\n'), how + ':%d' % (10 * k // len(text))
    if how == 'line':
        keep = [k for k, s in enumerate(lines) if s.strip() and
                not s.startswith(('job', '#', 'note')) and
                not s.strip().startswith('#')]
        k = gen.pick(rng, keep)
        what = lines[k].strip()[:8]
        del lines[k]
        return lines, 'line:' + what
    if how in ('no-weight', 'no-band', 'no-frequency'):
        w = how[3:] + ':'
        ks = [k for k, s in enumerate(lines) if s.strip().startswith(w)]
        k = gen.pick(rng, ks)
        if how == 'no-frequency' and rng.random() < 0.5:
            lines[k] = lines[k].replace('frequency', gen.pick(
                rng, ('freq', 'Frequency', 'frequencies')))
        elif how == 'no-band':
            lines[k] = lines[k].replace('band', 'bands')
        else:
            del lines[k]
        return lines, how
    if how in ('fewer-bands', 'more-bands'):
        ks = [k for k, s in enumerate(lines) if s.startswith('  - #')]
        k = gen.pick(rng, ks)
        if how == 'fewer-bands':
            del lines[k:k + 2]
        else:
            lines[k:k] = lines[k:k + 2]
        return lines, how
    if how == 'fewer-q':
        ks = [k for k, s in enumerate(lines) if s.startswith('- q-pos')]
        k = gen.pick(rng, ks)
        e = [j for j in ks if j > k]
        del lines[k:e[0] if e else len(lines)]
        return lines, how
    if how == 'volume':
        a = sec['volume'][0]
        head, toks = split_array(lines[a])
        k = int(rng.integers(len(toks)))
        toks[k] = gen.pick(rng, ('0.0', '-' + toks[k], '-1.0e-30', '.nan'))
        lines[a] = join_array(head, toks)
        return lines, how
    if how == 'supercell':
        a = sec['supercell'][0]
        what = gen.pick(rng, ('row', 'column', 'singular', 'word', 'half',
                              'scalar', 'more', 'null'))
        rows = [split_array(s)[1] for s in lines[a + 1:a + 4]]
        if what == 'row':
            del rows[int(rng.integers(3))]
        elif what == 'column':
            for r in rows:
                del r[0]
        elif what == 'singular':
            rows[0] = list(rows[1])
        elif what == 'word':
            rows[1][2] = gen.pick(rng, ('x', '.nan', '.inf', '~', "''"))
        elif what == 'half':
            rows[2][2] = '1.5'
        elif what == 'more':
            rows.append(['0', '0', '1'])
        elif what == 'null':
            rows = [['0'] * 3] * 3
        new = ['- [ %s ]' % ', '.join(r) for r in rows]
        if what == 'scalar':
            new, lines[a] = [], 'supercell: 2'
        lines[a + 1:a + 4] = new
        return lines, 'supercell:' + what
    if how == 'weight':
        ks = [k for k, s in enumerate(lines) if 'weight:' in s]
        w = gen.pick(rng, ('-1', '-0.5', '.nan', '.inf', 'abc', '~', 'true',
                           '[ 1.0 ]', '[ 1.0, 2.0 ]', 'zero'))
        if w == 'zero':
            for k in ks:
                lines[k] = '  weight: 0'
        else:
            k = gen.pick(rng, ks)
            lines[k] = '  weight: ' + w
        return lines, how + ':' + w
    k = gen.pick(rng, [k for k, s in enumerate(lines) if 'weight:' in s])
    lines[k] = gen.pick(rng, (' ', '    ', '\t', '')) + lines[k].strip()
    return lines, 'indent'


def phonon(ctx, rng, index):
    from quantas.IO.qha_reader import QHAInputFileReader
    wd = cli.fresh(ctx)
    d = gen.ha_case(rng, {'energy_unit': 'Ha', 'lenght_unit': 'A',
                          'frequency_unit': 'cm^-1'},
                    nv=int(gen.pick(rng, (1, 2, 4, 5, 7))),
                    nq=int(gen.pick(rng, (1, 2, 3))),
                    nat=int(gen.pick(rng, (1, 2, 4))), kind='plain')
    p = os.path.join(wd, 'in.yaml')
    gen.write_qha(p, d, blank=rng.random() < 0.5)
    with open(p, encoding='utf8') as f:
        lines = f.read().split('\n')
    names = []
    for _ in range(2 if rng.random() < 0.15 else 1):
        for _ in range(20):
            try:
                lines, n = damage_phonon(rng, lines, d)
            except (IndexError, KeyError, ValueError):
                continue            # does not apply to this document
            names.append(n)
            break
        if names and not names[0].startswith(
                ('key', 'renamed', 'colon', 'supercell', 'no-')):
            break               # a second damage might cure the first
    with open(p, 'w', encoding='utf8') as f:
        f.write('\n'.join(lines))
    ctx.describe(damage=names, volumes=len(d['volume']),
                 points=len(d['weights']), atoms=d['natom'])
    r = QHAInputFileReader(p)
    told(ctx, r, names, '\n'.join(lines)[:1500])
    cmd = gen.pick(rng, ('ha', 'ha', 'qha'))
    refuse(ctx, wd, [cmd, 'in.yaml'] + (
        ['-o', 'res'] if rng.random() < 0.3 else []), names,
        '\n'.join(lines)[:1500])
    ctx.nontrivial('phonon', lines)


def told(ctx, r, names, text):
    """The reader says that it failed."""
    ctx.expect(not r.completed, 'reader:accepted', '%s\n%s' % (names, text))
    ctx.expect(isinstance(r.error, str) and r.error.strip(),
               'reader:no-message', str(names))
    ctx.count('reader_refusals')


def refuse(ctx, wd, args, names, text='', stdin='v\n2\n3\nn\nn\nn\nn\nn\n'):
    """The command shows an error, stops and writes nothing."""
    before = cli.snapshot(wd)
    o = cli.run(args, stdin, cwd=wd)
    ctx.count('commands')
    ctx.expect(not o.crash, 'command:traceback', '%s %s: %r\n%s' % (
        args, names, o.exc, text))
    ctx.expect(not o.ok, 'command:completed', '%s %s\n%s' % (
        args, names, text))
    ctx.expect(cli.ERROR in o.text or o.code != 0, 'command:untold',
               '%s %s\n%s' % (args, names, o.text[-400:]))
    after = cli.snapshot(wd)
    new = [n for n in set(after) - set(before)
           if not n.endswith(('.txt', '.log'))]
    ctx.same(new, [], 'command:files')
    ctx.expect(all(after.get(n) == b for n, b in before.items()),
               'command:touched', str(names))
    ctx.count('command_refusals')
    ctx.count('damages', len(set(names)))


def few(ctx, rng, index):
    """Too few volumes for the quasi-harmonic approximation."""
    wd = cli.fresh(ctx)
    nv = 1 + index % 3
    r = runs.qha(rng, wd)
    d = dict(r.d)
    for k in ('volume', 'energy'):
        d[k] = d[k][:nv]
    d['freq'] = d['freq'][:, :, :nv]
    gen.write_qha(r.path(), d)
    ctx.describe(volumes=nv, args=r.args)
    refuse(ctx, wd, r.args, ['few:%d' % nv])
    ctx.nontrivial('few', r.args)


JUNK = (b'', b'\n', b'   \n\t\n', b'hello\n', b'- 1\n- 2\n', b'3.5\n',
        b'\x00' * 100, b'\xff\xfe\x00\x01' * 50, b'\x89HDF\r\n\x1a\n\x00',
        b'{', b'a: [1, 2', b'key: value\n' * 20, b'%!PS-Adobe\n%%x\n',
        b'<xml><a/></xml>\n' * 9, '\u00e9\u20ac\n'.encode('latin9'),
        b'1 2 3 4 5 6\n' * 3, b'\xef\xbb\xbf', b'!!python/none x',
        b'a: *b\n', b'? - a\n: b\n', b'natom: 1\n', b'JOB\n', b'FORMAT\n',
        b'DATA\n', b'JOB\nFORMAT\nDATA\n', b'FORMAT\nP V\n', b'[' * 3000)


def foreign(ctx, rng, index):
    """Files that have nothing to do with the program."""
    from quantas.IO.eos_reader import EoSInputFileReader
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.IO.soec_reader import SOECInputFileReader
    wd = cli.fresh(ctx)
    b = JUNK[index % len(JUNK)]
    if index >= len(JUNK):
        b = bytes(rng.integers(0, 256, int(rng.integers(1, 900))).tolist())
    p = os.path.join(wd, 'x.dat')
    with open(p, 'wb') as f:
        f.write(b)
    ctx.describe(start=repr(b[:30]))
    for cls in (EoSInputFileReader, QHAInputFileReader, SOECInputFileReader):
        try:
            told(ctx, cls(p), ['foreign'], repr(b[:60]))
        except IndexError:
            # the tests want this for an empty first line
            if cls is not SOECInputFileReader or \
                    b.decode('utf8').split('\n')[0].strip():
                raise
    args = [['ha'], ['qha'], ['soec'], ['eosfit'], ['inpgen', 'ha'],
            ['inpgen', 'soec'], ['inpgen', 'soec', '-i', 'vasp'],
            ['inpgen', 'ha', '-i', 'phonopy'], ['export', 'ha'],
            ['inpgen', 'ha', '-i', 'crystal-qha'], ['export', 'soec'],
            ['inpgen', 'ha', '-l'], ['export', 'qha']]
    for k in range(4):
        a = args[(4 * index + k) % len(args)]
        refuse(ctx, wd, a + ['x.dat'], ['foreign:' + a[-1]], repr(b[:60]))
    ctx.nontrivial('foreign', repr(b))


# -- elastic ----------------------------------------------------------------
def damage_elastic(rng, rows, form):
    rows = [list(r) for r in rows]
    how = gen.pick(rng, ('row', 'token', 'more', 'word', 'asymmetric',
                         'balanced', 'blank', 'short', 'form', 'comma', 'repeat'))
    i = int(rng.integers(6))
    j = int(rng.integers(len(rows[i])))
    if how == 'row':
        del rows[i]
    elif how == 'token':
        del rows[i][j]
        if form != 'full' and not rows[i]:
            how = 'blank'
    elif how == 'more':
        rows[i].insert(j, '1.5')
    elif how == 'word':
        w = gen.pick(rng, ('abc', 'nan', 'inf', '-inf', '--1', '1.2.3', '1,5',
                           'None', '1e', '****', '|'))
        rows[i][j] = w
        how += ':' + w
    elif how == 'asymmetric':
        if form != 'full':
            raise IndexError
        j = (i + 1 + int(rng.integers(5))) % 6
        rows[i][j] = repr(float(rows[i][j]) + gen.pick(
            rng, (0.01, -0.5, 30., 2e-3)))
    elif how == 'balanced':
        # several pairs differ, their differences cancel
        if form != 'full':
            raise IndexError
        pairs = [(a, b) for a in range(6) for b in range(a)]
        d = gen.pick(rng, (0.01, 0.5, 30., 4e-3))
        for k, n in enumerate(rng.permutation(len(pairs))[
                :2 * int(rng.integers(1, 4))]):
            a, b = pairs[n]
            if rng.random() < 0.5:
                rows[a][b] = '%.3f' % (float(rows[a][b]) + (-1)**k * d)
            else:
                rows[b][a] = '%.3f' % (float(rows[b][a]) - (-1)**k * d)
    elif how == 'blank':
        rows.insert(i if i else 1, [])
    elif how == 'short':
        rows = rows[:int(rng.integers(0, 6))]
    elif how == 'form':
        # triangular rows in disorder
        k = rng.permutation(6)
        if form == 'full' or list(k) in (list(range(6)),
                                         list(range(6))[::-1]):
            raise IndexError
        rows = [rows[x] for x in k]
    elif how == 'comma':
        rows[i] = [t + ',' for t in rows[i]]
    else:
        rows.insert(i, list(rows[i]))
        if form == 'full' and i in (4, 5):
            raise IndexError
        if form == 'upper' and i == 5 or form == 'lower' and i == 5:
            raise IndexError
    return rows, form + ':' + how


def elastic(ctx, rng, index):
    from quantas.IO.soec_reader import SOECInputFileReader
    wd = cli.fresh(ctx)
    C = el.tensor(rng, gen.pick(rng, el.CLASSES))[0]
    form = gen.pick(rng, ('full', 'upper', 'lower'))
    C = np.round(C, 3)
    tok = [['%.3f' % x for x in r] for r in C]
    rows = [tok[i] if form == 'full' else tok[i][i:] if form == 'upper'
            else tok[i][:i + 1] for i in range(6)]
    density = gen.pick(rng, ('3178', '2900.5'))
    name = 'density'
    if rng.random() < 0.12:
        density = gen.pick(rng, ('abc', 'nan', 'inf', '-3178', '3,178',
                                 '3178kg', '-1e-9', 'density 3000', '1e'))
        name += ':' + density
    elif rng.random() < 0.1:
        # not a stable crystal: the reader cannot know, the command does
        k = int(rng.integers(3, 6))
        for i in range(6):
            if i != k:
                tok[i][k] = tok[k][i] = '0.000'
        tok[k][k] = gen.pick(rng, ('-5.000', '0.000'))
        rows = [tok[i] if form == 'full' else tok[i][i:] if form == 'upper'
                else tok[i][:i + 1] for i in range(6)]
        name = 'unstable'
    else:
        for _ in range(30):
            try:
                rows, name = damage_elastic(rng, rows, form)
                break
            except IndexError:
                continue
    title = ['some title'] if rng.random() < 0.7 or not rows or \
        not rows[0] else []
    lines = title + ['  '.join(r) for r in rows] + [density]
    if name == 'density' or rng.random() < 0.15:
        if not name.startswith(('density:', 'unstable')):
            lines = lines[:-1]
            if name == 'density':
                lines = lines[:-1]
    if form == 'upper' and [len(s.split()) for s in lines[len(title):]][
            :6] == [6, 5, 4, 3, 2, 1] and name in (
                'upper:row', 'upper:short', 'upper:token'):
        return              # the density took the place of the last row
    p = os.path.join(wd, 's.dat')
    with open(p, 'w') as f:
        f.write('\n'.join(lines))
    ctx.describe(damage=name, lines=len(lines))
    if name != 'unstable':
        told(ctx, SOECInputFileReader(p), [name], '\n'.join(lines))
    refuse(ctx, wd, ['soec', 's.dat'] + gen.pick(
        rng, ([], ['--polar'], ['-o', 'x'])), [name], '\n'.join(lines))
    ctx.nontrivial('elastic', lines)


# -- tables -----------------------------------------------------------------
def table(ctx, rng, index):
    from quantas.IO.eos_reader import EoSInputFileReader
    wd = cli.fresh(ctx)
    cols = ['P', 'V'] + [c for c in ('sigmaP', 'sigmaV', 'a')
                         if rng.random() < 0.5]
    n = int(rng.integers(4, 9))
    P = np.sort(rng.uniform(0, 20, n))
    rows = [['%.4f' % P[k], '%.4f' % (100 * (1 + 4 * P[k] / 150)**-0.25)] +
            ['%.4f' % rng.uniform(0.01, 5) for _ in cols[2:]]
            for k in range(n)]
    how = gen.pick(rng, (
        'no-format', 'no-data', 'order', 'no-p', 'no-structure', 'short',
        'word', 'empty', 'same-line', 'no-columns', 'cut-format', 'keyword',
        'comma', 'text-after'))
    i = int(rng.integers(n))
    j = int(rng.integers(len(cols)))
    job = ['JOB', 'some data'] if rng.random() < 0.7 else []
    fmt, dat = ['FORMAT', ' '.join(cols)], ['DATA']
    body = [list(r) for r in rows]
    tail = []
    if how == 'no-format':
        fmt = []
    elif how == 'no-data':
        dat = []
    elif how == 'order':
        job, fmt, tail = job, [], fmt
        if rng.random() < 0.5:
            # FORMAT between the keyword and the values
            dat, tail = ['DATA'] + tail, []
    elif how == 'no-p':
        cols[0] = gen.pick(rng, ('T', 'pressure', 'P,', 'X'))
        fmt[1] = ' '.join(cols)
    elif how == 'no-structure':
        cols = ['P'] + [c if c.startswith('sig') else gen.pick(
            rng, ('vol', 'X', 'V,', 'volume')) for c in cols[1:]]
        fmt[1] = ' '.join(cols)
    elif how == 'short':
        body[i] = body[i][:-int(rng.integers(1, len(cols)))]
    elif how == 'word':
        w = gen.pick(rng, ('abc', 'nan', 'inf', '-inf', '1,5', '1.2.3', '--',
                           '5e', '10(2)', '**'))
        body[i][j] = w
        how += ':' + w
    elif how == 'empty':
        body = []
    elif how == 'same-line':
        dat = ['DATA ' + ' '.join(body[0])]
        del body[0]
    elif how == 'no-columns':
        del fmt[1]
    elif how == 'cut-format':
        dat, body = [], []
        if rng.random() < 0.5:
            fmt = ['FORMAT']
    elif how == 'keyword':
        k = gen.pick(rng, ('FORMAT', 'DATA'))
        bad = gen.pick(rng, (k[:-1], k + ':', k + 'S'))
        if k == 'FORMAT':
            fmt[0] = bad
        else:
            dat[0] = bad
    elif how == 'comma':
        body[i] = [x + ',' for x in body[i]]
    else:
        tail = [gen.pick(rng, ('END', 'JOB', 'notes of the author'))]
    lines = job + fmt + dat + [' '.join(r) for r in body] + tail
    p = os.path.join(wd, 't.dat')
    with open(p, 'w') as f:
        f.write('\n'.join(lines) + gen.pick(rng, ('', '\n')))
    ctx.describe(damage=how, columns=cols)
    told(ctx, EoSInputFileReader(p), [how], '\n'.join(lines))
    refuse(ctx, wd, ['eosfit', 't.dat'], ['table:' + how], '\n'.join(lines))
    ctx.nontrivial('table', lines)


# -- ab initio outputs ------------------------------------------------------
def source(rng, wd, kind):
    """(file, arguments, output) of an input generation."""
    p = os.path.join
    if kind.startswith('crystal:'):
        ck = kind.split(':')[1]
        b = c24.base(rng, ck, nat=int(rng.integers(1, 4)))
        abinitio.crystal_phonon(p(wd, 'f.out'), rng, c24.image(rng, b, 0))
        return 'f.out', ['ha', 'f.out'], 'quantas_ha.yaml'
    if kind == 'qha':
        nv = int(rng.integers(4, 7))
        z, pos = abinitio.atoms(rng, int(rng.integers(1, 4)))
        d = {'z': z, 'pos': pos, 'dim': np.eye(3, dtype=int),
             'lattices': np.array([abinitio.lattice(rng, 20 + k)
                                   for k in range(nv)]),
             'energies': -rng.uniform(1, 2, nv),
             'freq': rng.uniform(10, 900, (3 * len(z), nv)),
             'order': range(nv)}
        abinitio.crystal_qha(p(wd, 'f.out'), rng, d)
        return 'f.out', ['ha', 'f.out', '-i', 'crystal-qha'], \
            'quantas_ha.yaml'
    C = np.round(el.tensor(rng, gen.pick(rng, el.CLASSES))[0], 3)
    if kind == 'soec':
        abinitio.crystal_soec(p(wd, 'f.out'), rng, C, 3.21)
        return 'f.out', ['soec', 'f.out'], 'f_soec_input.dat'
    if kind == 'vasp':
        # with two tables, losing the second one leaves a valid output of a
        # calculation without ionic relaxation
        abinitio.outcar(p(wd, 'f.out'), rng, C, total=False)
        return 'f.out', ['soec', 'f.out', '-i', 'vasp'], 'f_soec_input.dat'
    b = c24.phonopy_case(rng)
    abinitio.phonopy(p(wd, 'f'), rng, c24.phonopy_image(rng, b, 0), True)
    f = {'phonopy': 'f.yaml', 'phonopy-disp': 'f_disp.yaml',
         'phonopy-xml': 'f.xml'}[kind]
    return f, ['ha', 'f.yaml', '-i', 'phonopy'], 'quantas_ha.yaml'


SOURCES = ('crystal:gamma', 'crystal:supercell', 'crystal:dispersion',
           'crystal:interpolated', 'qha', 'soec', 'vasp', 'phonopy',
           'phonopy-disp', 'phonopy-xml')


def outputs(ctx, rng, index):
    """Unfinished outputs of ab initio codes."""
    wd = cli.fresh(ctx)
    kind = SOURCES[index % len(SOURCES)]
    name, args, out = source(rng, wd, kind)
    src = os.path.join(wd, name)
    cli.must(ctx, ['inpgen'] + args, 'title\n', cwd=wd, key='intact')
    with open(os.path.join(wd, out), encoding='utf8') as f:
        good = f.read()
    os.remove(os.path.join(wd, out))
    with open(src, encoding='utf8') as f:
        text = f.read()
    for _ in range(4):
        how = gen.pick(rng, ('cut', 'cut-line', 'line', 'lines'))
        lines = text.split('\n')
        if how == 'cut':
            # not inside a number: half of it is still a number
            k = int(rng.integers(0, len(text)))
            while k and not text[k:k + 1].isspace() \
                    and not text[k - 1].isspace():
                k -= 1
            bad = text[:k]
            where = text[max(0, k - 60):k]
        elif how == 'cut-line':
            k = int(rng.integers(0, len(lines)))
            bad = '\n'.join(lines[:k])
            where = lines[k - 1]
        else:
            k = int(rng.integers(0, len(lines)))
            e = k + (1 if how == 'line' else int(rng.integers(2, 9)))
            where = '\n'.join(lines[k:e])
            bad = '\n'.join(lines[:k] + lines[e:])
        with open(src, 'w', encoding='utf8') as f:
            f.write(bad)
        ctx.describe(kind=kind, damage=how, where=where)
        o = cli.run(['inpgen'] + args, 'title\n', cwd=wd)
        ctx.count('commands')
        ctx.expect(not o.crash, 'output:traceback', '%s %s: %r' % (
            kind, where, o.exc))
        p = os.path.join(wd, out)
        if o.ok:
            with open(p, encoding='utf8') as f:
                got = f.read()
            # without some lines, an output may be that of another kind
            ctx.expect(got == good or not how.startswith('cut'), 'output:partial', '%s, %s after/of\n%s\n'
                       'gives\n%s\nnot\n%s' % (kind, how, where, got[:700],
                                               good[:700]))
            os.remove(p)
            ctx.count('harmless')
        else:
            ctx.expect(cli.ERROR in o.text or o.code != 0, 'output:untold',
                       o.text[-300:])
            ctx.expect(not os.path.exists(p), 'output:files', out)
            ctx.count('command_refusals')
        ctx.nontrivial('output', kind, how, where)


# -- results ----------------------------------------------------------------
def results(ctx, rng, index):
    """Broken result files given to the exporters."""
    wd = cli.fresh(ctx)
    kind = ('ha', 'qha', 'soec')[index % 3]
    r = runs.MAKERS[kind](rng, wd, flags=False,
                          **({'polar': True} if kind == 'soec' else {}))
    runs.go(ctx, r)
    p = r.path(r.out)
    key = {'ha': ('F', 'S', 'Cv', 'Uth'), 'qha': ('VT', 'KT', 'G', 'Cp'),
           'soec': ('E', 'LC', 'G', 'Nu')}[kind]
    key = gen.pick(rng, key)
    how = ('cut', 'key', 'axis', 'garbage')[index // 3 % 4]
    with open(p, 'rb') as f:
        b = f.read()
    if how == 'cut':
        b = b[:int(rng.integers(0, len(b)))]
    elif how == 'garbage':
        k = int(rng.integers(0, 90))
        b = b[:k] + bytes(200) + b[k + 200:]
    if how in ('cut', 'garbage'):
        with open(p, 'wb') as f:
            f.write(b)
    else:
        with h5py.File(p, 'r+') as f:
            names = list(f)
            if how == 'key':
                for n in names:
                    if n not in ('T', 'P', 'V'):
                        del f[n]
            else:
                for n in names:
                    del f[n]
    ctx.describe(kind=kind, damage=how, size=len(b))
    refuse(ctx, wd, ['export', kind, r.out], ['result:' + how],
           stdin=key + '\nn\n')
    ctx.nontrivial('result', kind, how, len(b))


def groups(tier):
    k = 1 if tier == 'quick' else 150
    return [Group('phonon', 150 * k, phonon),
            Group('few', 6 * k, few),
            Group('foreign', 40 * k, foreign),
            Group('elastic', 90 * k, elastic),
            Group('table', 80 * k, table),
            Group('outputs', 50 * k, outputs),
            Group('results', 12 * k, results)]
