"""Random documented invocations of the commands with the data behind them."""
import os

import numpy as np

from vlib import cli, elastic as el, gen, qcase, qmodel

TITLES = ('periclase', 'MgO at PBE level', 'a', 'test 1', "hydroxylapatite, "
          'P6_3', 'Quartz (SiO2) #2', 'Ca5(PO4)3OH', 'forsterite - B3LYP*',
          'caf\u00e9 \u03b1-quartz', '42 degrees', 'yes it is',
          'quartz {001} slab', '100 % MgO, %s', 'a {} b', 'true', '{0:d}',
          'job: none', '1.5', '- x', '*', '$HOME `x`',
          'calculated with ' + 'a very long description, ' * 12 + 'end')


def cut(x):
    """Option value with full precision."""
    return repr(float(x))


def unit_args(u):
    a = ['--eunit', u['energy_unit'], '--vunit', u['lenght_unit'],
         '--funit', u['frequency_unit'].replace('cm^-1', 'cm-1'),
         '--tunit', u['temperature_unit']]
    if 'pressure_unit' in u:
        a += ['--punit', u['pressure_unit']]
    return a


class Run:
    """kind, wd, name (input), args, out (result file), log, title, u, ..."""

    def path(self, name=None):
        return os.path.join(self.wd, name or self.name)


def finish(rng, r, suffix, flags, quiet):
    base = os.path.splitext(r.name)[0]
    if rng.random() < 0.4:
        r.base = gen.pick(rng, ('mine', 'my results', 'res.v2', 'sub/out'))
        if '/' in r.base:
            os.makedirs(os.path.join(r.wd, 'sub'), exist_ok=True)
        r.args += ['-o', r.base]
        r.named = True
    else:
        r.base = base + suffix
        r.named = False
    r.out = r.base + '.hdf5'
    r.log = os.path.splitext(r.out)[0] + '.txt'
    if flags:
        if quiet is None:
            quiet = rng.random() < 0.3
        if quiet:
            r.args.append(gen.pick(rng, ('-q', '--quiet')))
        if rng.random() < 0.15:
            r.args.append(gen.pick(rng, ('-d', '--debug')))
    r.quiet = any(a in ('-q', '--quiet') for a in r.args)
    return r


def rename(r, base):
    """Another -o for a run."""
    if r.named:
        k = r.args.index('-o')
        del r.args[k:k + 2]
    r.args += ['-o', base]
    os.makedirs(os.path.dirname(r.path(base)), exist_ok=True)
    r.base, r.named, r.out = base, True, base + '.hdf5'
    r.log = os.path.splitext(r.out)[0] + '.txt'


def titled(rng, title):
    return title or gen.pick(rng, TITLES)


def quote(title):
    """A YAML scalar that reads as the title."""
    return '"%s"' % title


def ha(rng, wd, name='in.yaml', nv=None, title=None, flags=True, quiet=None,
       tmax=25, kind=None):
    r = Run()
    r.kind, r.wd, r.name = 'ha', wd, name
    r.u = gen.units(rng)
    size = int(gen.pick(rng, (1, 2))), int(gen.pick(rng, (1, 2, 3)))
    if rng.random() < 0.05:     # one large dimension
        size = ((12, 2), (1, 40))[int(rng.integers(2))]
    if nv is None and rng.random() < 0.05:
        nv = 15
    if tmax == 25 and rng.random() < 0.06:
        tmax = 200
    r.d = gen.ha_case(rng, r.u, nv=nv, nat=size[0], nq=size[1], kind=kind)
    r.title = titled(rng, title)
    r.d['job'] = quote(r.title)
    gen.write_qha(r.path(), r.d)
    r.tr = tuple(float(np.round(x, 6)) for x in
                 gen.trange(rng, r.u['temperature_unit'], tmax))
    r.args = ['ha', name, '-T'] + [cut(x) for x in r.tr] + unit_args(r.u)
    r.settings = gen.ha_settings(r.u, r.tr)
    return finish(rng, r, '_HA', flags, quiet)


def qha(rng, wd, name='in.yaml', title=None, flags=True, quiet=None,
        many=None, scheme=None, mini=None, nvol=None, shape=None,
        edeg=None, fdeg=None):
    r = Run()
    r.kind, r.wd, r.name = 'qha', wd, name
    r.m, r.u, r.vols, tmax, pmax = qmodel.model_setup(rng, nvol)
    many = rng.random() < 0.3 if many is None else many
    r.tr, r.pr = qcase.grids(rng, r.u, tmax, pmax, many)
    if shape:       # exactly that many temperatures and pressures
        t0 = -273.15 if r.u['temperature_unit'] == 'C' else 0.
        st, sp = (float('%.2g' % (x / (n + 1))) for x, n in zip(
            (tmax, pmax * (10 if r.u['pressure_unit'] == 'kbar' else 1)),
            shape))
        r.tr = (t0, t0 + st * (shape[0] - 0.5), st)
        r.pr = (0., sp * (shape[1] - 0.5), sp)
    r.tr = tuple(float(np.round(x, 6)) for x in r.tr)
    r.pr = tuple(float(np.round(x, 6)) for x in r.pr)
    r.d = r.m.document(r.u, r.vols)
    if rng.random() < 0.15:     # energies relative to one of the volumes
        r.d['energy'] = r.d['energy'] - r.d['energy'][
            int(rng.integers(len(r.vols)))]
    r.title = titled(rng, title)
    r.d['job'] = quote(r.title)
    gen.write_qha(r.path(), r.d)
    r.scheme = scheme or gen.pick(rng, ('td', 'freq'))
    r.mini = mini or gen.pick(rng, ('poly', 'eos'))
    r.eos = gen.pick(rng, qmodel.EOS)
    r.edeg = min(edeg or int(gen.pick(rng, (3, 3, 4, 5, 2))), len(r.vols) - 2)
    r.fdeg = min(fdeg or int(gen.pick(rng, (2, 3, 4, 5))), len(r.vols) - 2)
    r.settings = qmodel.settings(r.u, r.tr, r.pr, r.scheme, r.mini, r.eos,
                                 r.edeg, r.fdeg)
    r.args = ['qha', name, '-T'] + [cut(x) for x in r.tr] + \
        ['-P'] + [cut(x) for x in r.pr] + unit_args(r.u) + \
        ['-s', r.scheme, '-m', r.mini, '--eos', r.settings['eos'],
         '--edeg', str(r.edeg), '--fdeg', str(r.fdeg)]
    return finish(rng, r, '_QHA', flags, quiet)


def soec(rng, wd, name='in.dat', title=None, flags=True, quiet=None,
         polar=None, cls='orthorhombic', density=None, C=None, plot=None):
    r = Run()
    r.kind, r.wd, r.name = 'soec', wd, name
    r.C = C
    if C is None:
        r.C, r.cls = el.tensor(rng, cls, cond=1e-2)
    if density is None and rng.random() < 0.5:
        density = float(np.round(rng.uniform(900, 9000), 2))
    r.rho = density or None
    r.title = titled(rng, title)
    if r.title[0].isdigit():
        r.title = 'crystal ' + r.title
    r.form = gen.pick(rng, ('full', 'upper', 'lower'))
    el.write(r.path(), r.C, r.rho, r.form, r.title)
    r.polar = rng.random() < 0.4 if polar is None else polar
    r.plot = bool(plot)
    r.args = ['soec', name] + (['--polar'] if r.polar else []) + \
        (['-p'] if r.plot else [])
    if rng.random() < 0.2:
        r.args += ['--punit', 'GPa']
    return finish(rng, r, '_SOEC', flags, quiet)


MAKERS = {'ha': ha, 'qha': qha, 'soec': soec}


def go(ctx, r, stdin=None, key='command'):
    """Run it; it must complete and leave what it announces."""
    o = cli.must(ctx, r.args, stdin, cwd=r.wd, key=key, log=r.path(r.log))
    ctx.expect(os.path.isfile(r.path(r.out)), key + ':result',
               'no result file %s after quantas %s: %s' % (
                   r.out, ' '.join(r.args), sorted(os.listdir(r.wd))))
    return o


def calculator(ctx, r):
    """The same computation in memory."""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        if r.kind == 'ha':
            from quantas.harmonic.harmonic import HACalculator
            c = HACalculator(dict(r.settings))
        elif r.kind == 'qha':
            from quantas.qha.qha import QHACalculator
            c = QHACalculator(dict(r.settings))
        else:
            from quantas.soec.soec import SOECCalculator
            c = SOECCalculator(el.settings(r.polar))
        err = c.read_input(r.path())
        ctx.expect(err is None, 'refused', 'valid input refused: %s' % err)
        c.run()
    ctx.expect(c.completed, 'incomplete', str(c.error))
    return c
