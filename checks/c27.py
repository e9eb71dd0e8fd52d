"""C27: commands never destroy user files without consent."""
import os
import signal
import subprocess
import sys
import time

import numpy as np

from vlib import abinitio, cli, elastic as el, gen, runs
from vlib.core import Group
from checks import c24

PROPERTY = 'C27'
RULE = ('every command is run in directories full of files of the user '
        '(inputs, older results, tables, look-alike names) with the whole '
        'directory compared byte for byte before and after: successful runs, '
        'runs that find an older result and are refused, aborted or agreed '
        'at the prompt, runs that fail for each kind of bad input, runs '
        'interrupted by KeyboardInterrupt at random calls inside the package '
        'before the prompt, and processes killed at random moments before '
        'the answer; non-trivial = distinct (command, outcome, files)')
MIN = {'distinct': 90, 'files_compared': 1200, 'declined': 40, 'agreed': 12,
       'failed_runs': 25, 'interrupted': 30, 'killed': 5}
ASSUMPTIONS = [
    'the log of a command (txt, log) and the pictures of soec -p are its own '
    'outputs and are not results: they may be rewritten by a new run',
    'an interruption is a KeyboardInterrupt raised on entry of a function of '
    'the package, or SIGKILL']
JUNK = (b'', b'precious\n', b'\x89HDF\r\n\x1a\n broken', bytes(range(256)) * 9)


NEAR = ('.tmp', '.temp', '.bak', '~', '.old', '.part', '.new', '.orig',
        '.lock', '.1', '_old', '_tmp', '_backup', '.dat~', '.csv')


def bystanders(rng, wd, outs=()):
    """Files that look like outputs but belong to the user."""
    names = ['notes.txt', 'old_HA.hdf5', 'in.hdf5', 'in_SOEC.txt', 'in.log',
             'quantas_ha.yml', 'in_soec_input.txt', 'table.dat', 'in~',
             'sub/in_QHA.hdf5', 'sub/notes.md', '.hidden', 'in.yaml.bak',
             'in_F.dat', 'in_HA_F.data', 'mine.hdf', 'mine', 'tmp',
             'in_HA.h5', 'results.txt', 'report.log', 'in_E.png']
    for n in names:
        if rng.random() < 0.5:
            continue
        p = os.path.join(wd, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, 'wb') as f:
                f.write(JUNK[int(rng.integers(len(JUNK)))])
    # next to an output, under names a program may think are its own
    for n in outs:
        a, b = os.path.splitext(n)
        d, n1 = os.path.split(n)
        for x in [n + e for e in NEAR] + [a + e for e in NEAR] + [
                os.path.join(d, h % n1) for h in ('.%s', '#%s#', '.%s.swp',
                                                  'tmp_%s', '~%s')]:
            x = os.path.join(wd, x)
            if rng.random() < 0.7 and not os.path.lexists(x):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                with open(x, 'wb') as f:
                    f.write(JUNK[int(rng.integers(len(JUNK)))])


def intact(ctx, wd, before, own, key, must=()):
    """Nothing but `own` changed; `must` exist."""
    after = cli.snapshot(wd)
    own = {os.path.normpath(o) for o in own}
    ctx.count('files_compared', len(before))
    for n, b in before.items():
        if n in own:
            continue
        ctx.expect(n in after, key + ':removed', '%s was removed' % n)
        ctx.expect(after[n] == b, key + ':changed', '%s changed (%d -> %d '
                   'bytes)' % (n, len(b), len(after[n])))
    extra = sorted(set(after) - set(before) - own)
    ctx.expect(not extra, key + ':litter', 'unexpected files %s' % extra)
    for n in must:
        ctx.expect(os.path.normpath(n) in after, key + ':missing', n)
    return after


# -- what is run: (args, stdin before the answer, stdin after, out, log) ----
class Job:
    def __init__(self, kind, args, out, own, pre='', post=''):
        self.kind, self.args, self.out, self.own = kind, args, out, own
        self.pre, self.post = pre, post


OUTPUTS = ('run.2', 'a.b.c', 'v1.0/run', 'x.txt.old', 'my run', 'in', 'run',
           'sub/d.e/f', '.run', 'run.', '1.5', 'run.hdf5', './p.q')


def calc_job(ctx, rng, wd, kind):
    r = runs.MAKERS[kind](rng, wd)
    if rng.random() < 0.5:
        runs.rename(r, gen.pick(rng, OUTPUTS))
    own = {r.log}
    if kind == 'soec' and rng.random() < 0.15:
        r.args += ['--polar', '-p', '--dpi', '40']
        own |= {r.base + '_%s.png' % k for k in ('E', 'LC', 'G', 'Nu',
                                                 'waves')}
    return Job(kind, r.args, r.out, own)


def inpgen_job(ctx, rng, wd, kind):
    if kind == 'inpgen-soec':
        C = np.round(el.tensor(rng, 'cubic')[0], 3)
        if rng.random() < 0.5:
            abinitio.crystal_soec(os.path.join(wd, 'a.out'), rng, C, 3.5)
            args = ['inpgen', 'soec', 'a.out']
        else:
            abinitio.outcar(os.path.join(wd, 'a.out'), rng, C)
            args = ['inpgen', 'soec', 'a.out', '-i', 'vasp']
        out = 'a_soec_input.dat'
        ext = '.dat'
    else:
        b = c24.base(rng, 'gamma', nat=1)
        n = int(rng.integers(1, 4))
        for k in range(n):
            abinitio.crystal_phonon(os.path.join(wd, 'f%d.out' % k), rng,
                                    c24.image(rng, b, k))
        with open(os.path.join(wd, 'files'), 'w') as f:
            f.write('\n'.join('f%d.out' % k for k in range(n)))
        args = ['inpgen', 'ha', 'files', '-l']
        out = 'quantas_ha.yaml'
        ext = '.yaml'
    if rng.random() < 0.5:
        nm = gen.pick(rng, ('given', 'my input', 'v.1'))
        args += ['-o', nm]
        out = nm + ext
    return Job(kind, args, out, set(), post='some title\n')


def export_job(ctx, rng, wd, kind):
    k = kind.split('-')[1]
    r = runs.MAKERS[k](rng, wd, flags=False,
                       **({'polar': True} if k == 'soec' else {}))
    runs.go(ctx, r)
    key = {'ha': ('F', 'S', 'Cv', 'Uth', 'U0'), 'qha': ('VT', 'KT', 'alphaV',
                                                        'G', 'Cp'),
           'soec': ('E', 'LC', 'G', 'Nu')}[k]
    key = gen.pick(rng, key)
    out = '%s_%s.dat' % (os.path.splitext(r.out)[0], key)
    return Job(kind, ['export', k, r.out], out, set(), pre=key + '\n',
               post='n\n')


def job(ctx, rng, wd, kind):
    if kind.startswith('inpgen'):
        return inpgen_job(ctx, rng, wd, kind)
    if kind.startswith('export'):
        return export_job(ctx, rng, wd, kind)
    return calc_job(ctx, rng, wd, kind)


KINDS = ('ha', 'qha', 'soec', 'inpgen-ha', 'inpgen-soec', 'export-ha',
         'export-qha', 'export-soec')


HOW = ('junk', 'real', 'long', 'short')


def older(rng, wd, j, index):
    """Something is already there under the name of the output."""
    p = os.path.join(wd, j.out)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    how = HOW[index // len(KINDS) % 4]
    fill(rng, wd, j, p, how)
    when = float(gen.pick(rng, (0., 1e8, 1.2e9, 4e9)))
    if when:            # long before, or after, the input
        os.utime(p, (when, when))


def fill(rng, wd, j, p, how):
    if how == 'real' and j.kind in ('ha', 'qha', 'soec'):
        cli.run([a for a in j.args if a not in ('-d', '--debug')], cwd=wd)
        if os.path.exists(p):
            with open(p, 'ab') as f:
                f.write(b'mine')
            return
    with open(p, 'wb') as f:
        f.write(os.urandom(0) + bytes(rng.integers(
            0, 256, {'long': 200000, 'short': int(rng.integers(0, 9))}.get(
                how, 300)).tolist()))


def prompt(ctx, rng, index):
    """An older output: refused, aborted, agreed."""
    kind = KINDS[index % len(KINDS)]
    wd = cli.fresh(ctx)
    j = job(ctx, rng, wd, kind)
    bystanders(rng, wd, [j.out] + sorted(j.own))
    older(rng, wd, j, index)
    before = cli.snapshot(wd)
    answers = ['n\n', 'N\n', 'no\n', '\n', '', 'maybe\nn\n', 'q\n', 'NO\n',
               '0\n\n', 'f\n']
    for n in range(2):
        a = gen.pick(rng, answers)
        post = j.post
        if kind.startswith('export'):
            post = ''           # asked for another name: hang up
        ctx.describe(args=j.args, answer=a)
        o = cli.run(j.args, j.pre + a + ('' if a in ('', 'q\n') else post),
                    cwd=wd)
        ctx.count('commands')
        ctx.expect(not o.crash, 'declined:traceback', '%s on %r' % (
            repr(o.exc), a))
        ctx.expect('exist' in o.text.lower(), 'declined:unasked',
                   'no question about %s: %s' % (j.out, o.text[-400:]))
        intact(ctx, wd, before, j.own, 'declined')
        ctx.count('declined')
        ctx.nontrivial('declined', kind, a, j.args)
    a = gen.pick(rng, ('y\n', 'Y\n', 'yes\n', 'what\ny\n'))
    o = cli.run(j.args, j.pre + a + j.post, cwd=wd)
    ctx.expect(not o.crash, 'agreed:traceback', repr(o.exc))
    after = intact(ctx, wd, before, set(j.own) | {j.out}, 'agreed', [j.out])
    ctx.expect(after[os.path.normpath(j.out)] !=
               before[os.path.normpath(j.out)], 'agreed:kept',
               '%s was not replaced' % j.out)
    ctx.count('agreed')
    ctx.nontrivial('agreed', kind, j.args)


def clean(ctx, rng, index):
    """A plain run among files of the user."""
    kind = (KINDS + ('eosfit',))[index % (len(KINDS) + 1)]
    wd = cli.fresh(ctx)
    if kind == 'eosfit':
        P = np.round(np.linspace(0, 20, 9), 3)
        V = np.round(100 * (1 + 4 * P / 150)**-0.25, 6)
        with open(os.path.join(wd, 'in.dat'), 'w') as f:
            f.write('JOB\nx\nFORMAT\nP V\nDATA\n' + ''.join(
                '%.3f %.6f\n' % x for x in zip(P, V)))
        args, log = ['eosfit', 'in.dat'], 'in.log'
        if rng.random() < 0.5:
            args += ['-o', 'fit']
            log = 'fit.log'
        j = Job(kind, args, log, {log}, post='v\n2\n3\n' + 'n\n' * 6)
    else:
        j = job(ctx, rng, wd, kind)
    bystanders(rng, wd, [j.out] + sorted(j.own))
    if kind != 'eosfit' and os.path.exists(os.path.join(wd, j.out)):
        os.remove(os.path.join(wd, j.out))
    before = cli.snapshot(wd)
    ctx.describe(args=j.args)
    o = cli.run(j.args, j.pre + j.post, cwd=wd)
    ctx.count('commands')
    ctx.expect(not o.crash, 'clean:traceback', repr(o.exc))
    intact(ctx, wd, before, set(j.own) | {j.out}, 'clean', [j.out])
    ctx.nontrivial('clean', kind, j.args)


# -- failures ---------------------------------------------------------------
FAIL = ('ha-bad', 'ha-short', 'qha-few', 'qha-flat', 'soec-unstable',
        'soec-short', 'soec-text', 'log-input', 'directory', 'inpgen-short',
        'inpgen-missing', 'inpgen-wrong', 'export-wrong', 'ref', 'linked-log')


def failing(ctx, rng, index, files=True):
    """A run that cannot complete leaves the older output alone."""
    kind = FAIL[index % len(FAIL)]
    wd = cli.fresh(ctx)
    own, pre = set(), ''
    p = os.path.join
    if kind in ('ha-bad', 'ha-short', 'log-input', 'linked-log'):
        name = {'log-input': 'x.txt', 'linked-log': 'x.txt'}.get(
            kind, 'in.yaml')
        r = runs.ha(rng, wd, name=name)
        args, out = r.args, r.out
        own = {r.log}
        if kind == 'ha-bad':
            with open(r.path(), 'a') as f:
                f.write('\n  : [broken\n')
        elif kind == 'ha-short':
            with open(r.path()) as f:
                t = f.read()
            with open(r.path(), 'w') as f:
                f.write(t[:len(t) * 2 // 3].rsplit('\n', 1)[0])
        else:
            # the log would be the input itself
            out = 'x.hdf5'
            args = ['ha', name, '-o', 'x']
            own = set()
            if kind == 'linked-log':
                os.rename(p(wd, 'x.txt'), p(wd, 'data.yaml'))
                os.symlink('data.yaml', p(wd, 'x.txt'))
                args[1] = 'data.yaml'
    elif kind in ('qha-few', 'qha-flat'):
        r = runs.qha(rng, wd)
        if kind == 'qha-few':
            d = dict(r.d)
            k = int(rng.integers(1, 4))
            d['volume'], d['energy'] = d['volume'][:k], d['energy'][:k]
            d['freq'] = d['freq'][:, :, :k]
        else:
            # energy falls with volume everywhere: no equilibrium
            d = dict(r.d)
            v = np.asarray(d['volume'])
            d['energy'] = -np.abs(d['energy'][0]) * (
                1 + 5e-2 * (v - v[0]) / v[0])
        gen.write_qha(r.path(), d)
        args, out, own = r.args, r.out, {r.log}
    elif kind.startswith('soec'):
        r = runs.soec(rng, wd)
        args, out, own = r.args, r.out, {r.log}
        if kind == 'soec-unstable':
            C = np.array(r.C)
            C[3, 3] = -abs(C[3, 3])
            el.write(r.path(), C, r.rho, 'full', 'bad')
        elif kind == 'soec-short':
            with open(r.path()) as f:
                t = f.read().splitlines()
            with open(r.path(), 'w') as f:
                f.write('\n'.join(t[:4]))
        else:
            with open(r.path(), 'w') as f:
                f.write('nothing\nof the kind\n')
    elif kind == 'directory':
        os.makedirs(p(wd, 'in.d'))
        cmd = gen.pick(rng, ('ha', 'qha', 'soec'))
        args = [cmd, 'in.d']
        out = 'in_%s.hdf5' % cmd.upper()
        own = {out[:-5] + '.txt'}
    elif kind in ('inpgen-short', 'inpgen-missing', 'inpgen-wrong', 'ref'):
        j = inpgen_job(ctx, rng, wd, 'inpgen-ha')
        args, out = j.args, j.out
        src = p(wd, 'f0.out')
        if kind == 'inpgen-short':
            with open(src) as f:
                t = f.read()
            with open(src, 'w') as f:
                f.write(t[:t.index('MODES    ') - 5])
        elif kind == 'inpgen-missing':
            os.remove(src)
        elif kind == 'inpgen-wrong':
            args = args + ['-i', 'phonopy']
        else:
            args = args + ['-r', 9]
            pre = 'n\n'
    else:
        r = runs.ha(rng, wd, flags=False)
        runs.go(ctx, r)
        args, out = ['export', 'qha', r.out], 'any_F.dat'
        pre = 'F\n'
    bystanders(rng, wd, [out] + sorted(own))
    if kind != 'export-wrong':
        with open(p(wd, out), 'wb') as f:
            f.write(b'older result' * 50)
    before = cli.snapshot(wd)
    ctx.describe(kind=kind, args=args)
    o = cli.run(args, pre, cwd=wd)
    ctx.count('commands')
    ctx.expect(not o.crash, 'failed:traceback', '%s: %r' % (kind, o.exc))
    ctx.expect(not o.ok, 'failed:completed', kind)
    ctx.expect(len(o.text.strip()) > 0, 'failed:silent', kind)
    if files:
        intact(ctx, wd, before, own, 'failed')
    else:
        # some of the flat models get as far as the prompt
        ctx.expect(any((
            cli.ERROR in o.text, o.code != 0, 'not saved' in o.text)),
            'failed:no-error', '%s: %s' % (
            kind, o.text[-300:]))
    ctx.count('failed_runs')
    ctx.nontrivial('failed', kind, index)


# -- interruptions ----------------------------------------------------------
class Bomb:
    """KeyboardInterrupt on entry of the n-th function of the package."""

    def __init__(self, n=None):
        self.n, self.calls, self.asked, self.fired = n, 0, None, False

    def __call__(self, frame, event, arg):
        if event != 'call':
            return
        name = frame.f_code.co_filename
        if frame.f_code.co_name in ('confirm', 'prompt_func') and \
                os.sep + 'click' + os.sep in name and self.asked is None:
            self.asked = self.calls
        if os.sep + 'quantas' + os.sep not in name:
            return
        self.calls += 1
        if self.calls == self.n:
            self.fired = True
            raise KeyboardInterrupt

    def run(self, *a, **k):
        sys.setprofile(self)
        try:
            return cli.run(*a, **k)
        finally:
            sys.setprofile(None)


def interrupted(ctx, rng, index):
    """Ctrl-C anywhere before the user has agreed."""
    kind = KINDS[index % len(KINDS)]
    wd = cli.fresh(ctx)
    j = job(ctx, rng, wd, kind)
    bystanders(rng, wd, [j.out] + sorted(j.own))
    older(rng, wd, j, index)
    before = cli.snapshot(wd)
    cli.run(['--help'])
    b = Bomb()
    b.run(j.args, j.pre + 'n\n', cwd=wd)
    ctx.expect(b.asked is not None, 'interrupted:unasked',
               'no question about ' + j.out)
    intact(ctx, wd, before, j.own, 'interrupted')
    for n in range(3):
        at = int(rng.integers(1, b.asked + 1))
        if n == 2:
            at = b.asked
        c = Bomb(at)
        ctx.describe(args=j.args, at=at, of=b.asked)
        o = c.run(j.args, j.pre + 'y\n' + j.post, cwd=wd)
        if not c.fired:
            # calls before the prompt may differ by caching
            ctx.count('not_fired')
            with open(os.path.join(wd, j.out), 'wb') as f:
                f.write(before[os.path.normpath(j.out)])
            continue
        ctx.expect(not o.ok, 'interrupted:completed', str(at))
        intact(ctx, wd, before, j.own, 'interrupted')
        ctx.count('interrupted')
        ctx.nontrivial('interrupted', kind, at, j.args)


def killed(ctx, rng, index):
    """A process killed before the answer is given."""
    kind = KINDS[index % len(KINDS)]
    wd = cli.fresh(ctx)
    j = job(ctx, rng, wd, kind)
    bystanders(rng, wd, [j.out] + sorted(j.own))
    older(rng, wd, j, index)
    before = cli.snapshot(wd)
    ctx.describe(args=j.args)
    env = dict(os.environ, PYTHONPATH=ctx.src)
    code = ('import sys\nfrom quantas.cmdline.commands.cmd_quantas import '
            'cli\ncli(sys.argv[1:])')
    q = subprocess.Popen([sys.executable, '-B', '-c', code] + [
        str(a) for a in j.args], cwd=wd, env=env, stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        q.stdin.write(j.pre.encode())
        q.stdin.flush()
        if index % 2:
            text = b''
            end = time.time() + 60
            os.set_blocking(q.stdout.fileno(), False)
            while time.time() < end and b'overwrite' not in text.lower() \
                    and b'exist' not in text.lower():
                text += q.stdout.read() or b''
                if q.poll() is not None:
                    break
                time.sleep(0.02)
            time.sleep(float(rng.uniform(0, 0.2)))
        else:
            time.sleep(float(rng.uniform(0.6, 2.0)))
        alive = q.poll() is None
        q.send_signal(signal.SIGKILL)
    finally:
        q.kill()
        q.wait()
        q.stdin.close()
        q.stdout.close()
    ctx.expect(alive, 'killed:unasked', 'ended without waiting for an answer')
    intact(ctx, wd, before, j.own, 'killed')
    ctx.count('killed')
    ctx.nontrivial('killed', kind, j.args)


def groups(tier):
    k = 1 if tier == 'quick' else 15
    return [Group('prompt', 32 * k, prompt), Group('clean', 27 * k, clean),
            Group('failing', 45 * k, failing),
            Group('interrupted', 16 * k, interrupted),
            Group('killed', 8 * k, killed)]
