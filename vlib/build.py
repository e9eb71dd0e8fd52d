"""Scratch copy of /repo's working tree with its extensions built there."""
import os
import shutil
import subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def clean_env(scratch):
    keep = {k: v for k, v in os.environ.items()
            if k in ('PATH', 'LANG', 'LC_ALL', 'TERM')}
    keep.setdefault('PATH', '/usr/local/bin:/usr/bin:/bin')
    keep['LANG'] = 'C.UTF-8'
    keep['HOME'] = scratch
    keep['TMPDIR'] = os.path.join(scratch, 'tmp')
    keep['MPLBACKEND'] = 'Agg'
    keep['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    keep['PYTHONDONTWRITEBYTECODE'] = '1'
    keep['PYTHONHASHSEED'] = '0'
    keep['OPENBLAS_NUM_THREADS'] = '1'
    return keep


def copy_tree(dst):
    def ignore(d, names):
        out = []
        for n in names:
            if n in ('.git', '__pycache__', 'build', 'docs', 'img') or \
                    n.endswith(('.so', '.egg-info')):
                out.append(n)
            elif n.endswith('.c') and n[:-2] + '.pyx' in names:
                out.append(n)
        return out
    shutil.copytree(REPO, dst, ignore=ignore, symlinks=True)


def build(scratch, extra_env=None, name='src'):
    """Returns the source directory, or raises RuntimeError."""
    src = os.path.join(scratch, name)
    for d in ('tmp', 'mpl'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    copy_tree(src)
    env = clean_env(scratch)
    env.update(extra_env or {})
    p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace',
                        '-j', '4'],
                       cwd=src, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise RuntimeError('build failed:\n' +
                           p.stdout.decode('utf8', 'replace')[-3000:])
    return src
