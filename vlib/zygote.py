"""A process that has imported the program and done nothing else; forks a
child for every request, so that each answer comes from a fresh process."""
import json
import os
import pickle
import subprocess
import sys


def serve():
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import h5py  # noqa
    import checks.c24  # noqa
    import checks.c27  # noqa
    from vlib import history
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                tree, kept = history.perform(q['op'], q['seed'], q['dir'])
                data = pickle.dumps((tree, [(k.label, k.seen)
                                            for k in kept]))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        out.write(b'%d %d\n' % (status, len(data)))
        out.write(data)
        out.flush()


class Zygote:
    def __init__(self, scratch):
        self.p = subprocess.Popen(
            [sys.executable, '-B', '-c',
             'from vlib.zygote import serve; serve()'], cwd=scratch,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def ask(self, op, seed, d):
        self.p.stdin.write(json.dumps(
            {'op': op, 'seed': seed, 'dir': d}).encode() + b'\n')
        self.p.stdin.flush()
        status, n = self.p.stdout.readline().split()
        data = self.p.stdout.read(int(n))
        if int(status):
            return None
        return pickle.loads(data)

    def close(self):
        self.p.stdin.close()
        self.p.wait()
