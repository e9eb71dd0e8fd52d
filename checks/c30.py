"""C30: every command runs valid input to completion, tells success from
failure."""
import os
import subprocess
import sys

import h5py
import numpy as np

from vlib import abinitio, cli, elastic as el, gen, runs
from vlib.core import Group
from checks import c24, c27

PROPERTY = 'C30'
RULE = ('every command with random combinations of all its options in short '
        'and long form, in any position, over valid inputs of every kind, '
        'file and output names with spaces, dots, accents, no extension, '
        'sub-directories and absolute paths, default and explicit ranges, '
        'loud and quiet, interactive sessions with slips of the user; the '
        'banner, the error message, the exit code, the announced files and '
        'their content are observed; the same through real processes in '
        'several locales; inputs and usages that cannot be processed; '
        'non-trivial = distinct command line')
MIN = {'distinct': 170, 'commands': 200, 'completed': 90, 'refused': 50,
       'pictures': 8, 'fits': 30, 'processes': 8, 'options_seen': 180}
ASSUMPTIONS = ['a failure is told by the big error message or by the usage '
               'error or abort of the command line (exit code not 0)',
               'the soec command draws its pictures only together with '
               '--polar']
LONG = {'-o': '--outfile', '-T': '--temperature', '-P': '--pressure',
        '-s': '--scheme', '-m': '--minimization', '-q': '--quiet',
        '-d': '--debug', '-p': '--plot', '-l': '--list', '-r': '--ref',
        '-i': '--interface'}
NAMES = ('in.yaml', 'my input.yaml', 'in.v2.yaml', 'noext', 'm\u00fcll.dat',
         'sub/x.yaml', './y.yml', 'a.b.c', 'UPPER.TXT', '-dash.yaml',
         '(1)#.dat', 'in.hdf5x')


def shuffle(rng, args):
    """Same options, long or short, in another order, file anywhere."""
    cmd, rest = args[0], [str(a) for a in args[1:]]
    groups, pos, i = [], [], 0
    nargs = {'-T': 3, '-P': 3, '-q': 0, '-d': 0, '-p': 0, '--polar': 0,
             '--quiet': 0, '--debug': 0, '--plot': 0, '-l': 0, '--list': 0,
             '-a': 0}
    while i < len(rest):
        a = rest[i]
        if a.startswith('-') and len(a) > 1 and not pos_like(a):
            n = nargs.get(a, 1)
            name = LONG.get(a, a) if rng.random() < 0.5 else a
            val = rest[i + 1:i + 1 + n]
            if n == 1 and name.startswith('--') and rng.random() < 0.5:
                groups.append([name + '=' + val[0]])
            else:
                groups.append([name] + val)
            i += n + 1
        else:
            pos.append(a)
            i += 1
    groups = [groups[k] for k in rng.permutation(len(groups))]
    k = int(rng.integers(0, len(groups) + 1))
    if any(p.startswith('-') for p in pos):
        return [cmd] + sum(groups, []) + ['--'] + pos
    return [cmd] + sum(groups[:k], []) + pos + sum(groups[k:], [])


def pos_like(a):
    return a == '-dash.yaml'


def name_for(rng, wd, kind):
    n = gen.pick(rng, NAMES)
    if '/' in n:
        os.makedirs(os.path.join(wd, os.path.dirname(n)), exist_ok=True)
    return n


def thermo_defaults(rng, r):
    """Leave out options whose value is the default one."""
    drop = {'--eunit': 'Ha', '--vunit': 'A', '--funit': 'cm-1',
            '--tunit': 'K', '--punit': 'GPa', '-s': 'td', '-m': 'poly',
            '--eos': 'BM', '--edeg': '3', '--fdeg': '3'}
    a, i = [], 0
    args = [str(x) for x in r.args]
    while i < len(args):
        if args[i] in drop and args[i + 1] == drop[args[i]] and \
                rng.random() < 0.6:
            i += 2
            continue
        if r.kind == 'ha' and args[i] == '-T' and rng.random() < 0.3:
            i += 4
            r.tr = (298.15, 298.15, 1.)
            continue
        if r.kind == 'qha' and args[i] == '-P' and r.pr[0] <= 0 <= r.pr[1] \
                and rng.random() < 0.4:
            i += 4
            r.pr = (0., 0., 1.)
            continue
        a.append(args[i])
        i += 1
    r.args = a


def calculation(ctx, rng, index):
    wd = cli.fresh(ctx)
    kind = ('ha', 'qha', 'soec', 'ha', 'soec')[index % 5]
    name = name_for(rng, wd, kind)
    kw = {}
    if kind == 'soec':
        kw = {'polar': rng.random() < 0.5, 'cls': gen.pick(rng, el.CLASSES)}
    r = runs.MAKERS[kind](rng, wd, name=name, **kw)
    if kind != 'soec':
        thermo_defaults(rng, r)
    else:
        if rng.random() < (0.5 if r.polar else 0.3):
            r.args.append('-p')
            if rng.random() < 0.7:
                r.args += ['--dpi', str(gen.pick(rng, (20, 40, 72)))]
        if rng.random() < 0.3:
            r.args.append(gen.pick(rng, ('-q', '-d')))
            r.quiet = r.quiet or '-q' in r.args
    if rng.random() < 0.15 and name != '-dash.yaml':
        r.args[r.args.index(name)] = os.path.join(wd, name)
        r.log = r.log if r.named else os.path.join(wd, r.log)
    args = shuffle(rng, r.args)
    ctx.describe(args=args)
    completes(ctx, wd, args, r)
    ctx.nontrivial(args)


def settings(ctx, rng, index):
    """Every scheme, minimisation, formulation and pair of degrees."""
    wd = cli.fresh(ctx)
    r = runs.qha(rng, wd, flags=False, many=index % 4 == 0,
                 scheme=('td', 'freq')[index % 2],
                 mini=('poly', 'eos')[index // 2 % 2],
                 edeg=2 + index // 4 % 4, fdeg=2 + (index // 16 + index) % 4,
                 nvol=int(gen.pick(rng, (4, 4, 5, 6, 7, 8, 10, 12))))
    args = shuffle(rng, r.args)
    ctx.describe(args=args)
    completes(ctx, wd, args, r)
    ctx.nontrivial(r.scheme, r.mini, r.eos, r.edeg, r.fdeg)


def completes(ctx, wd, args, r):
    """Run, then look at everything the user was promised."""
    o = cli.must(ctx, args, cwd=wd, key=r.kind, log=os.path.join(wd, r.log))
    ctx.same(o.code, 0, 'exit-code')
    ctx.expect(cli.ERROR not in o.text, 'error-shown', o.text[-400:])
    ctx.count('completed')
    ctx.count('options_seen', sum(a.startswith('-') for a in args))
    ctx.expect(os.path.isfile(r.path(r.out)), 'no-result', '%s: %s' % (
        r.out, sorted(os.listdir(wd))))
    with h5py.File(r.path(r.out), 'r') as f:
        ctx.expect(len(f) > 1, 'empty-result', r.out)
        if r.kind != 'soec':
            t = f['T'][()]
            ctx.close(t[0], r.tr[0], 'first-temperature', 1e-12, 1e-9)
            ctx.close(np.max(t), max(r.tr[0], r.tr[1]), 'last-temperature',
                      1e-12, r.tr[2])
        if r.kind == 'qha':
            ctx.close(f['P'][()][0], r.pr[0], 'first-pressure', 1e-12, 1e-9)
        if r.kind == 'soec':
            ctx.same(any('polar' in k for k in f), r.polar, 'polar-datasets')
    with open(os.path.join(wd, r.log), encoding='utf8') as f:
        text = f.read()
    ctx.expect(cli.ERROR not in text, 'error-logged', text[-400:])
    quiet = any(a in ('-q', '--quiet') for a in args)
    if quiet:
        ctx.expect(cli.BANNER not in o.text, 'not-quiet', o.text[-200:])
    if r.kind == 'soec':
        draws = any(a in ('-p', '--plot') for a in args) and r.polar
        for k in ('E', 'LC', 'G', 'Nu'):
            p = r.path('%s_%s.png' % (r.base, k))
            ctx.same(os.path.isfile(p), draws, 'picture', p)
            if draws:
                with open(p, 'rb') as f:
                    ctx.same(f.read(8), b'\x89PNG\r\n\x1a\n', 'picture')
                ctx.count('pictures')


def generator(ctx, rng, index):
    """inpgen and export sessions."""
    wd = cli.fresh(ctx)
    kind = ('inpgen-ha', 'inpgen-soec', 'export-ha', 'export-qha',
            'export-soec', 'qha-interface', 'phonopy')[index % 7]
    if kind in ('qha-interface', 'phonopy'):
        if kind == 'phonopy':
            b = c24.phonopy_case(rng)
            abinitio.phonopy(os.path.join(wd, 'm'), rng,
                             c24.phonopy_image(rng, b, 0),
                             rng.random() < 0.7)
            args = ['inpgen', 'ha', 'm.yaml', '-i', 'phonopy']
        else:
            nv = int(rng.integers(4, 7))
            z, pos = abinitio.atoms(rng, 2)
            d = {'z': z, 'pos': pos, 'dim': np.eye(3, dtype=int),
                 'lattices': np.array([abinitio.lattice(rng, 20 + k)
                                       for k in range(nv)]),
                 'energies': -rng.uniform(1, 2, nv),
                 'freq': rng.uniform(10, 900, (6, nv)), 'order': range(nv)}
            abinitio.crystal_qha(os.path.join(wd, 'q.out'), rng, d)
            args = ['inpgen', 'ha', 'q.out', '-i', 'crystal-qha']
        out = 'quantas_ha.yaml'
        if rng.random() < 0.6:
            args += ['-o', 'given']
            out = 'given.yaml'
        j = c27.Job(kind, args, out, set(), post='the title\n')
    else:
        j = c27.job(ctx, rng, wd, kind)
        old = os.path.join(wd, j.out)
        if os.path.exists(old):
            os.remove(old)
    args = j.args[:1] + shuffle(rng, j.args[1:])
    ctx.describe(args=args)
    o = cli.must(ctx, args, j.pre + j.post, cwd=wd, key=kind)
    ctx.same(o.code, 0, 'exit-code')
    ctx.expect(cli.ERROR not in o.text, 'error-shown', o.text[-400:])
    ctx.count('completed')
    ctx.count('options_seen', sum(str(a).startswith('-') for a in args))
    ctx.expect(os.path.isfile(os.path.join(wd, j.out)), 'no-output',
               '%s: %s' % (j.out, sorted(os.listdir(wd))))
    ctx.expect(os.path.getsize(os.path.join(wd, j.out)) > 0, 'empty', j.out)
    ctx.nontrivial(args, j.pre)


SLIPS = ('z', '9', 'V', '0', '-1', 'help', '?', '2.5')


def session(ctx, rng, index):
    """Interactive fits: any path through the questions, with slips."""
    wd = cli.fresh(ctx)
    n = int(rng.integers(5, 14))
    P = np.round(np.sort(rng.uniform(0, 20, n)), 4)
    have = [c for c in 'vabc' if rng.random() < 0.6] or ['v']
    data, sig = {}, {}
    for c in have:
        x = rng.uniform(60, 300) if c == 'v' else rng.uniform(3, 12)
        k = rng.uniform(60, 250) * (1 if c == 'v' else 3)
        data[c] = np.round(x * (1 + 4 * P / k)**-0.25 *
                           (1 + 1e-5 * rng.standard_normal(n)), 7)
        if rng.random() < 0.4:
            sig[c] = np.round(rng.uniform(0.5, 2, n) * x * 1e-4, 7)
    if rng.random() < 0.4:
        sig['p'] = np.round(rng.uniform(0.02, 0.1, n), 4)
    name = gen.pick(rng, ('d.dat', 'my data', 'x.y.z'))
    cols = ['P'] + [c.upper() if c == 'v' else c for c in have] + \
        ['sigma' + (c.upper() if c in 'pv' else c) for c in sig]
    with open(os.path.join(wd, name), 'w') as f:
        f.write('JOB\nsome data\nFORMAT\n%s\nDATA\n' % ' '.join(cols))
        for k in range(n):
            f.write(' '.join(repr(float(x)) for x in [P[k]] + [
                data[c][k] for c in have] + [sig[c][k] for c in sig]) + '\n')
    ans, fits = [], []

    def yes(p=0.5, default='n'):
        if rng.random() < 0.12:
            ans.append(gen.pick(rng, ('maybe', '2', 'ye')))
            ctx.count('slips')
        v = rng.random() < p
        ans.append(gen.pick(rng, ('y', 'Y', 'yes') if v else
                            ('n', 'N', 'no')))
        if v == (default == 'y') and rng.random() < 0.4:
            ans[-1] = ''
        return v

    def pick(options, bad):
        while rng.random() < 0.15:
            s = gen.pick(rng, [x for x in bad if x not in options])
            ans.append(s)
            ctx.count('slips')
        ans.append(gen.pick(rng, options))
        return ans[-1]
    orders = {'1': '3', '2': '234', '3': '234', '4': '23', '5': '234'}
    for m in range(int(rng.integers(1, 3))):
        c = pick(have, SLIPS[:1] + SLIPS[1:])
        same_data = True
        while same_data:
            f = pick(list('12345'), ('z', '9', '0', 'M'))
            o = pick(list(orders[f]), ('7', '1', '9', 'two', '2.5'))
            same_eos = True
            while same_eos:
                if yes(0.25):
                    ref = float(data[c][0])
                    guess = [gen.pick(rng, ('', '%.3f' % (k * rng.uniform(
                        0.8, 1.2)))) for k in (
                            150 if c == 'v' else 450, 4 if c == 'v' else 12)]
                    guess += ['', gen.pick(rng, ('', repr(ref)))]
                    for g in guess:
                        if rng.random() < 0.1:
                            ans.append(gen.pick(rng, ('big', '1,5', '4 2')))
                            ctx.count('slips')
                        ans.append(g)
                if yes(0.3):
                    # something has to stay free: the modulus or the volume
                    k0 = yes(0.4)
                    yes(0.4)
                    yes(0.4)
                    yes(0. if k0 else 0.4)
                if c in sig or 'p' in sig:
                    if yes(0.6, 'y'):
                        for q in ('p', c):
                            if q in sig:
                                yes(0.7, 'y')
                fits.append((c, f, o))
                yes(0.4)
                if len(fits) > 5 or not yes(0.5):
                    if len(fits) > 5:
                        ans.append('n')
                    same_data = same_eos = False
                else:
                    same_eos = not yes(0.5)
        if len(fits) > 5:
            break
        ans.append('y')
    else:
        ans.pop()
    ans.append('n')
    args = ['eosfit', name]
    log = os.path.splitext(name)[0] + '.log'
    if rng.random() < 0.4:
        args += ['-o', 'my fits']
        log = 'my fits.log'
    if rng.random() < 0.3:
        args += ['--punit', 'GPa']
    if rng.random() < 0.3:
        args += ['--vunit', 'A']
    args = shuffle(rng, args)
    ctx.describe(args=args, answers=ans, columns=cols)
    o = cli.must(ctx, args, '\n'.join(ans) + '\n', cwd=wd, key='eosfit',
                 log=os.path.join(wd, log))
    ctx.same(o.code, 0, 'exit-code')
    ctx.same(o.text.count('EOS results for'), len(fits), 'fits')
    ctx.expect(cli.ERROR not in o.text, 'error-shown', o.text[-400:])
    ctx.count('completed')
    ctx.count('fits', len(fits))
    ctx.nontrivial(args, ans)


USAGE = (
    [], ['ha'], ['nothing'], ['haa', 'in.yaml'], ['inpgen'], ['export'],
    ['inpgen', 'hax', 'in.yaml'], ['export', 'eosfit', 'x'],
    ['ha', 'missing.yaml'], ['qha', 'missing'], ['soec', 'missing'],
    ['eosfit', 'missing'], ['export', 'ha', 'missing'],
    ['inpgen', 'ha', 'missing'], ['inpgen', 'soec', 'missing'],
    ['ha', 'in.yaml', '--eunit', 'J'], ['ha', 'in.yaml', '--vunit', 'm'],
    ['ha', 'in.yaml', '--funit', 'eV'], ['ha', 'in.yaml', '--tunit', 'F'],
    ['qha', 'in.yaml', '--punit', 'Pa'], ['qha', 'in.yaml', '-s', 'x'],
    ['qha', 'in.yaml', '-m', 'x'], ['qha', 'in.yaml', '--eos', 'B'],
    ['qha', 'in.yaml', '--edeg', '1'], ['qha', 'in.yaml', '--edeg', '6'],
    ['qha', 'in.yaml', '--fdeg', '9'], ['qha', 'in.yaml', '--fdeg', 'x'],
    ['ha', 'in.yaml', '-T', '1', '2'], ['ha', 'in.yaml', '-T', 'a', 'b', 'c'],
    ['ha', 'in.yaml', '-T', '300', '200', '10'],
    ['ha', 'in.yaml', '-T', '100', '200', '0'],
    ['ha', 'in.yaml', '-T', '100', '200', '-5'],
    ['ha', 'in.yaml', '-T', 'nan', '200', '5'],
    ['ha', 'in.yaml', '-T', '0', 'inf', '5'],
    ['qha', 'in.yaml', '-P', '3', '1', '1'],
    ['qha', 'in.yaml', '-P', '0', '1', '0'],
    ['ha', 'in.yaml', '-T', '-50', '100', '10'],
    ['ha', 'in.yaml', '--tunit', 'C', '-T', '-280', '-100', '10'],
    ['qha', 'in.yaml', '-T', '-50', '100', '10'],
    ['qha', 'in.yaml', '-a'], ['qha', 'in.yaml', '--acoustic', '-q'],
    ['qha', 'in.yaml', '-s', 'freq', '-a', '-m', 'eos'],
    ['soec', 's.dat', '--dpi', '0', '-p', '--polar'],
    ['soec', 's.dat', '--dpi', 'x'], ['soec', 's.dat', '--punit', 'kbar'],
    ['ha', 'in.yaml', '-o', 'missing/out'], ['qha', 'in.yaml', '-o', 'no/x'],
    ['soec', 's.dat', '-o', 'missing/out'],
    ['eosfit', 's.dat', '-o', 'missing/out'],
    ['soec', 'in.yaml'], ['ha', 's.dat'], ['eosfit', 'in.yaml'],
    ['qha', 's.dat'], ['export', 'ha', 's.dat'], ['export', 'qha', 'in.yaml'],
    ['inpgen', 'soec', 's.dat'], ['inpgen', 'soec', 's.dat', '-i', 'vasp'],
    ['inpgen', 'ha', 'in.yaml'], ['inpgen', 'ha', 'in.yaml', '-i', 'phonopy'],
    ['inpgen', 'ha', 'in.yaml', '-i', 'crystal-qha'],
    ['inpgen', 'ha', 'in.yaml', '-l'], ['inpgen', 'ha', 's.dat', '-i', 'x'],
    ['ha', 'bin'], ['qha', 'bin'], ['soec', 'bin'], ['eosfit', 'bin'],
    ['export', 'soec', 'bin'], ['inpgen', 'ha', 'bin'],
    ['inpgen', 'soec', 'bin'], ['inpgen', 'soec', 'bin', '-i', 'vasp'],
    ['inpgen', 'ha', 'bin', '-l'], ['ha', 'dir'], ['soec', 'dir'],
    ['eosfit', 'dir'], ['inpgen', 'ha', 'dir'], ['export', 'qha', 'dir'],
    ['eosfit', 'one.dat'], ['eosfit', 'flat.dat'], ['ha', 'empty'],
    ['soec', 'empty'], ['eosfit', 'empty'], ['inpgen', 'ha', 'empty'],
    ['inpgen', 'soec', 'empty'], ['inpgen', 'ha', 'empty', '-l'],
    ['eosfit', 'ok.dat'])
INFO = (['-h'], ['--help'], ['-v'], ['--version'], ['ha', '-h'],
        ['qha', '--help'], ['soec', '-h'], ['eosfit', '-h'], ['inpgen', '-h'],
        ['inpgen', 'ha', '-h'], ['inpgen', 'soec', '--help'], ['export', '-h'],
        ['export', 'ha', '-h'], ['export', 'qha', '-h'],
        ['export', 'soec', '-h'])


def usage(ctx, rng, index):
    """Requests that cannot be satisfied are told apart from successes."""
    wd = cli.fresh(ctx)
    if index >= len(USAGE):
        args = INFO[(index - len(USAGE)) % len(INFO)]
        o = cli.run(args, cwd=wd)
        ctx.count('commands')
        ctx.expect(not o.crash and o.code == 0, 'info', repr(o.exc))
        ctx.expect('elp' in o.text or 'v0.' in o.text or 'v1.' in o.text,
                   'info:text', o.text[-200:])
        ctx.same(os.listdir(wd), [], 'info:files')
        ctx.nontrivial('info', args)
        return
    r = runs.qha(rng, wd, name='in.yaml', flags=False)
    s = runs.soec(rng, wd, name='s.dat', flags=False)
    del r, s
    with open(os.path.join(wd, 'bin'), 'wb') as f:
        f.write(b'\x00\xff\xfe\x89HDF' + bytes(rng.integers(
            128, 256, 400).tolist()))
    os.mkdir(os.path.join(wd, 'dir'))
    open(os.path.join(wd, 'empty'), 'w').close()
    for n, rows in (('one', '0 100\n'), ('flat', '0 99\n0 99\n0 99\n0 99\n'),
                    ('ok', '0 100\n2 99\n4 98.1\n6 97.3\n8 96.6\n')):
        with open(os.path.join(wd, n + '.dat'), 'w') as f:
            f.write('JOB\nx\nFORMAT\nP V\nDATA\n' + rows)
    args = USAGE[index]
    stdin = 'v\n2\n3\nn\nn\nn\nn\nn\n'
    if args == ['eosfit', 'ok.dat']:
        stdin = 'v\n2\n'            # hangs up in the middle
    before = set(cli.snapshot(wd))
    ctx.describe(args=args)
    o = cli.run(args, stdin, cwd=wd)
    ctx.count('commands')
    ctx.expect(not o.crash, 'refused:traceback', '%s: %r' % (args, o.exc))
    ctx.expect(not o.ok, 'refused:banner', '%s completed' % (args,))
    ctx.expect(cli.ERROR in o.text or o.code != 0, 'refused:untold',
               o.text[-300:])
    ctx.expect(o.text.strip(), 'refused:silent', str(args))
    new = [n for n in set(cli.snapshot(wd)) - before
           if not n.endswith(('.txt', '.log'))]
    ctx.same(new, [], 'refused:files')
    ctx.count('refused')
    ctx.nontrivial('usage', args)


def failing(ctx, rng, index):
    """Inputs that cannot be processed."""
    c27.failing(ctx, rng, index, files=False)
    ctx.count('refused')


LOCALES = ({}, {'LANG': 'C', 'LC_ALL': 'C'}, {'LC_ALL': 'C.UTF-8'},
           {'PYTHONIOENCODING': 'utf-8'}, {'TERM': 'dumb'},
           {'OMP_NUM_THREADS': '1'}, {'COLUMNS': '40'})


def process(ctx, rng, index):
    """The console script as a user starts it."""
    wd = cli.fresh(ctx)
    kind = ('ha', 'qha', 'soec', 'bad')[index % 4]
    r = runs.MAKERS['ha' if kind == 'bad' else kind](rng, wd)
    if kind == 'bad':
        with open(r.path(), 'w') as f:
            f.write('nothing: useful\n')
    env = dict(os.environ, PYTHONPATH=ctx.src)
    env.update(LOCALES[index % len(LOCALES)])
    code = ('import sys\nfrom quantas.cmdline.commands.cmd_quantas import '
            'cli\nsys.argv[0] = "quantas"\ncli()')
    ctx.describe(args=r.args)
    p = subprocess.run([sys.executable, '-B', '-c', code] + [
        str(a) for a in r.args], cwd=wd, env=env, stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    out = p.stdout.decode('utf8', 'replace')
    err = p.stderr.decode('utf8', 'replace')
    ctx.count('commands')
    ctx.count('processes')
    ctx.expect('Traceback' not in err + out, 'process:traceback', err[-900:])
    if kind == 'bad':
        ctx.expect(cli.ERROR in out + err and cli.BANNER not in out,
                   'process:untold', out[-300:])
        ctx.expect(not os.path.exists(r.path(r.out)), 'process:files', r.out)
        ctx.count('refused')
    else:
        ctx.same(p.returncode, 0, 'process:code')
        ctx.same(cli.BANNER in out, not r.quiet, 'process:banner',
                 out[-300:])
        with open(r.path(r.log), encoding='utf8') as f:
            ctx.expect(cli.BANNER in f.read(), 'process:log', r.log)
        ctx.expect(os.path.isfile(r.path(r.out)), 'process:result', r.out)
        ctx.count('completed')
    ctx.nontrivial('process', r.args)


def groups(tier):
    k = 1 if tier == 'quick' else 15
    return [Group('calculation', 50 * k, calculation),
            Group('settings', 64 * k, settings),
            Group('generator', 35 * k, generator),
            Group('session', 40 * k, session),
            Group('usage', len(USAGE) + len(INFO), usage),
            Group('failing', 30 * k, failing),
            Group('process', 12 * k, process)]
