"""Runs one shard of a check's cases against the freshly built scratch copy."""
import importlib
import json
import os
import sys
import warnings


def main():
    spec = json.loads(sys.argv[1])
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import quantas
    src = os.path.realpath(os.path.dirname(os.path.dirname(quantas.__file__)))
    if src != os.path.realpath(spec['src']):
        sys.stderr.write('wrong quantas imported: %s\n' % src)
        return 3
    from vlib.core import Ctx
    os.makedirs(spec['workdir'], exist_ok=True)
    os.chdir(spec['workdir'])
    ctx = Ctx(spec['tier'], spec['seed'], spec['workdir'])
    ctx.src = spec['src']
    ctx.scratch = spec['scratch']
    mod = importlib.import_module('checks.' + spec['property'].lower())
    todo = []
    for g in mod.groups(spec['tier']):
        for i in range(g.n):
            todo.append((g, i))
    only = spec.get('only')
    if only:
        todo = [(g, i) for g, i in todo
                if g.name == only['group'] and i == only['index']]
    mine = todo[spec['shard']::spec['nshards']]
    with open(spec['out'] + '.cur', 'w') as cur:
        for g, i in mine:
            cur.seek(0)
            cur.truncate()
            cur.write(json.dumps({'group': g.name, 'index': i}))
            cur.flush()
            ctx.run_case(g, i)
    with open(spec['out'] + '.tmp', 'w') as f:
        json.dump(ctx.report(), f)
    os.replace(spec['out'] + '.tmp', spec['out'])
    return 0


if __name__ == '__main__':
    sys.exit(main())
