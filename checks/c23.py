"""C23: readers, generators and calculators share no state."""
import atexit
import os
import shutil

import numpy as np

from vlib import cli, history as hs
from vlib.core import Group
from vlib.zygote import Zygote

PROPERTY = 'C23'
RULE = ('random histories of 6-14 operations over every reader, input '
        'creator, calculator, fitter, exporter, elastic and seismic object '
        'and command, on intact and damaged data, in one process, with the '
        'same relative file names, directories rewritten with other content, '
        'operations repeated, objects dropped, kept alive or vandalised; '
        'everything observable (public attributes, printed text, files, '
        'result datasets) is compared bit by bit with the same operation in '
        'a forked process that had done nothing else, and kept objects are '
        'observed again after every later operation; non-trivial = distinct '
        'ordered pair of operations')
MIN = {'distinct': 170, 'histories': 25, 'operations': 220,
       'fresh_processes': 220, 'reobservations': 600, 'repeated': 15,
       'vandalised': 10, 'rewritten_directories': 20}
ASSUMPTIONS = ['an object whose own arrays are overwritten by the caller may '
               'change; other objects may not',
               'operation times printed in the logs are not compared']
WORKERS = 8

SLOW = ('calc_soec', 'calc_soec_bad', 'command_soec',
        'command_export_soec')
_Z = []


def zygote(ctx):
    if not _Z:
        z = Zygote(ctx.scratch)
        atexit.register(z.close)
        _Z.append(z)
    return _Z[0]


def history(ctx, rng, index):
    z = zygote(ctx)
    names = sorted(hs.OPS)
    n = int(rng.integers(6, 15))
    focus = None
    if index % 3:
        # mostly one family, to meet its own leftovers
        stems = sorted({x.replace('_bad', '') for x in names})
        stem = stems[(index + index // 3) % len(stems)]
        focus = [x for x in names if x in (stem, stem + '_bad')]
    plan, alive = [], []
    wd = cli.fresh(ctx)
    prev = None
    for k in range(n):
        if plan and rng.random() < 0.15:
            op, seed = plan[int(rng.integers(len(plan)))][:2]
            ctx.count('repeated')
        else:
            pool = focus if focus and rng.random() < 0.7 else names
            op = pool[int(rng.integers(len(pool)))]
            if op in SLOW and rng.random() < 0.75:
                op = 'objects_soec'     # the slowest one
            seed = int(rng.integers(2**31))
        # the directory: a new one, or the one of an earlier operation
        # with other content under the same names
        d = os.path.join(wd, 'd')
        if os.path.isdir(d):
            if rng.random() < 0.5:
                os.rename(d, os.path.join(wd, 'old%d' % k))
            else:
                shutil.rmtree(d)
                ctx.count('rewritten_directories')
        plan.append((op, seed))
        ctx.describe(plan=plan)
        ref = os.path.join(wd, 'ref%d' % k, 'd')
        want = z.ask(op, seed, ref)
        if want is None:
            from vlib.core import Inconclusive
            raise Inconclusive('%s failed in the fresh process' % op)
        shutil.rmtree(os.path.join(wd, 'ref%d' % k))
        ctx.count('fresh_processes')
        tree, kept = hs.perform(op, seed, d)
        ctx.count('operations')
        what = '%s after %s' % (op, [p[0] for p in plan[:-1]])
        ctx.expect(tree == want[0], 'history:' + op.replace('_bad', ''),
                   '%s differs from a fresh process at %s' % (
                       what, hs.first_difference(tree, want[0])))
        ctx.same([x.label for x in kept], [x[0] for x in want[1]], 'objects')
        for x, (label, seen) in zip(kept, want[1]):
            ctx.expect(x.seen == seen, 'history:' + label, '%s of %s differs '
                       'from a fresh process at %s' % (
                           label, what, hs.first_difference(x.seen, seen)))
        for x, by in alive:
            now = x.again()
            ctx.count('reobservations')
            ctx.expect(now == x.seen, 'changed:' + x.label, '%s made by %s '
                       'changed after %s at %s' % (
                           x.label, by, op, hs.first_difference(
                               now, x.seen)))
        for x in kept:
            ctx.expect(x.again() == x.seen, 'unstable:' + x.label,
                       '%s changes by being observed at %s' % (
                           x.label, hs.first_difference(x.again(), x.seen)))
        if prev:
            ctx.nontrivial(prev, op)
        prev = op
        u = rng.random()
        if u < 0.15 and kept:
            for x in kept:
                ctx.count('vandalised', hs.vandal(x, rng) > 0)
        elif u < 0.9:
            alive += [(x, op) for x in kept]
        if len(alive) > 10:
            del alive[int(rng.integers(len(alive)))]
    shutil.rmtree(wd)
    ctx.count('histories')


def groups(tier):
    return [Group('history', 700 if tier == 'thorough' else 84, history)]
