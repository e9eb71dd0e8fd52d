"""Author and try planted bugs.

    plant.py make  BATCH.py ...   write /verif/seeded/<id>/ from a batch file
    plant.py try   ID ... | all   confirm each bug and run its property's check

A batch file is Python that fills SEEDS with dictionaries:
  id, property, file, edits=[(old, new), ...] (or files={file: edits}),
  demo (Python source), needs, breaks.
`try` works in throw-away copies of /repo under /tmp.
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; anything else: the planted bug shows.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
DEMO_WORK=$work timeout 250 /opt/venv/bin/python -W ignore -B "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update({'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
              'PYTHONHASHSEED': '0', 'LANG': 'C.UTF-8'})
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, shell=isinstance(cmd, str))
    return r.returncode, r.stdout


def copy_repo():
    d = tempfile.mkdtemp(prefix='plant.')
    dst = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', dst])
    return d, dst


def make(batch):
    scope = {}
    exec(compile(open(batch).read(), batch, 'exec'), scope)
    for s in scope['SEEDS']:
        d, dst = copy_repo()
        try:
            files = s.get('files') or {s['file']: s['edits']}
            for f, edits in files.items():
                assert not os.path.isabs(f), f
                p = os.path.join(dst, f)
                t = open(p, newline='').read()
                crlf = '\r\n' in t
                for old, new in edits:
                    if crlf:
                        old = old.replace('\n', '\r\n')
                        new = new.replace('\n', '\r\n')
                    if t.count(old) != 1:
                        raise LookupError('%s: %d matches in %s for %r' % (
                            s['id'], t.count(old), f, old))
                    t = t.replace(old, new)
                open(p, 'w', newline='').write(t)
            rc, out = sh(['git', 'diff', '--no-color'], cwd=dst)
            # only lines of the original repository may be changed
            out_dir = os.path.join(SEEDED, s['id'])
            os.makedirs(out_dir, exist_ok=True)
            with open(os.path.join(out_dir, 'patch.diff'), 'w', newline='') as f:
                f.write(out)
            with open(os.path.join(out_dir, 'demo.py'), 'w') as f:
                f.write(s['demo'].lstrip('\n'))
            helper = os.path.join(os.path.dirname(batch), 'helper.py')
            if os.path.exists(helper) and 'helper' in s['demo']:
                shutil.copy(helper, out_dir)
            with open(os.path.join(out_dir, 'demo.sh'), 'w') as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(out_dir, 'demo.sh'), 0o755)
            with open(os.path.join(out_dir, 'meta.json'), 'w') as f:
                json.dump({'property': s['property'], 'needs': s['needs'],
                           'what_it_breaks': s['breaks']}, f, indent=1)
                f.write('\n')
            print('made', s['id'], ownership(dst, out_dir))
        except LookupError as exc:
            print('NOT MADE', exc)
        finally:
            shutil.rmtree(d)


def ownership(dst, out_dir):
    """Say which removed lines are not of the original repository."""
    import re
    bad = []
    cur = None
    for line in open(os.path.join(out_dir, 'patch.diff'), newline=''):
        if line.startswith('--- a/'):
            cur = line[6:].strip()
            rc, orig = sh(['git', 'show', 'fbe7cf1:' + cur], cwd=dst)
            orig = set(x.strip() for x in orig.splitlines())
        elif line.startswith('-') and not line.startswith('---'):
            if line[1:].strip() and line[1:].strip() not in orig:
                bad.append(line.strip())
    return 'NOT ORIGINAL: %s' % bad if bad else 'ok'


def attempt(sid, checks=None):
    folder = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    d, dst = copy_repo()
    res = {'id': sid, 'property': meta['property']}
    try:
        lay = os.path.join(d, 'lay')
        shutil.copytree(folder, lay, ignore=shutil.ignore_patterns(
            '*.diff', '*.patch', 'meta.json'))
        demo = ['bash', os.path.join(lay, 'demo.sh')]
        rc, out = sh(demo, cwd=dst)
        res['demo_clean'] = rc
        if rc:
            res['demo_clean_out'] = out[-1500:]
        rc, out = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=dst)
        if rc:
            res['apply'] = out
            return res
        if '.pyx' in open(os.path.join(folder, 'patch.diff')).read():
            sh(['bash', '-c', "find . -name '*.so' -delete; rm -rf build"], cwd=dst)
            rc, out = sh([PY, 'setup.py', 'build_ext', '--inplace'], cwd=dst)
            res['build'] = rc
            if rc:
                res['build_out'] = out[-1500:]
        rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                      '--timeout=300'], cwd=dst)
        res['tests'] = rc
        if rc:
            res['tests_out'] = out[-1500:]
        rc, out = sh(demo, cwd=dst)
        res['demo_bug'] = rc
        res['demo_bug_out'] = out[-600:]
        for c in (checks or [meta['property']]):
            rc, out = sh(['./check.py', c], cwd=VERIF,
                         env={'VERIF_REPO': dst, 'VERIF_SEED': '1',
                              'VERIF_TIER': 'quick'})
            res['check_' + c] = rc
            res['out_' + c] = '\n'.join(
                [l for l in out.splitlines() if 'VIOLATION' in l][:2]
                or out.splitlines()[-6:])[:900]
    finally:
        shutil.rmtree(d)
    return res


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for b in args:
            make(b)
        return
    checks = None
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    ids = sorted(os.listdir(SEEDED)) if args == ['all'] else args
    with concurrent.futures.ThreadPoolExecutor(3) as pool:
        for r in pool.map(lambda i: attempt(i, checks), ids):
            good = (r.get('demo_clean') == 0 and r.get('tests') == 0
                    and r.get('demo_bug', 0) != 0 and 'apply' not in r
                    and not r.get('build'))
            caught = [k[6:] for k, v in r.items()
                      if k.startswith('check_') and v == 1]
            print('%-28s %s valid=%s caught_by=%s' % (
                r['id'], r['property'], good, caught), flush=True)
            if not good or r['property'] not in caught:
                print(json.dumps(r, indent=1), flush=True)


main()
