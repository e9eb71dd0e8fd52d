#!/opt/venv/bin/python
"""Driver: check.py <property> [--tier quick|thorough] [--replay FILE]

Builds /repo's working tree in a scratch directory, runs the property's
monitors over its workload there, rewrites evidence/<id>.json.
Exit 0: held on everything observed. Exit 1: VIOLATION line printed.
Exit 2: inconclusive (build failure, too few observations, timeout).
"""
import argparse
import ast
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vlib import build as vbuild  # noqa: E402
from vlib.core import jsonable  # noqa: E402

WATCHDOG = {'quick': 780, 'thorough': 5400}


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf8'):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def merge(reports):
    tot = {'counters': {}, 'evaluations': 0, 'sigs': set(), 'samples': [],
           'violations': [], 'inconclusive': []}
    for r in reports:
        for k, v in r['counters'].items():
            tot['counters'][k] = tot['counters'].get(k, 0) + v
        tot['evaluations'] += r['evaluations']
        tot['sigs'].update(r['sigs'])
        tot['samples'] += r['samples']
        tot['violations'] += r['violations']
        tot['inconclusive'] += r['inconclusive']
    return tot


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--all', action='store_true', help='print every violation')
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        only, seed, tier = r['case'], r['seed'], r['tier']
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='qverif_')
    rc = 2
    procs = []
    try:
        rc = run(prop, tier, seed, only, scratch, a, t0, procs)
    except RuntimeError as e:
        print('INCONCLUSIVE property=%s %s' % (prop, e))
        rc = 2
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def run(prop, tier, seed, only, scratch, a, t0, procs):
    mod_path = os.path.join(HERE, 'checks', prop.lower() + '.py')
    text = open(mod_path, encoding='utf8').read()
    src = vbuild.build(scratch)
    env = vbuild.clean_env(scratch)
    env['PYTHONPATH'] = src + os.pathsep + HERE
    m = re.search(r'^OMP_THREADS\s*=\s*(\d+)', text, re.M)
    env['OMP_NUM_THREADS'] = m.group(1) if m else '2'
    m = re.search(r'^WORKERS\s*=\s*(\d+)', text, re.M)
    nw = 1 if only else min(a.workers, int(m.group(1)) if m else 8)
    outs = []
    for k in range(nw):
        out = os.path.join(scratch, 'out%d.json' % k)
        spec = {'property': prop, 'tier': tier, 'seed': seed, 'shard': k,
                'nshards': nw, 'out': out, 'src': src, 'scratch': scratch,
                'workdir': os.path.join(scratch, 'w%d' % k), 'only': only}
        log = open(os.path.join(scratch, 'log%d' % k), 'wb')
        procs.append(subprocess.Popen(
            [vbuild.PY, '-B', '-m', 'vlib.worker', json.dumps(spec)],
            env=env, cwd=scratch, stdin=subprocess.DEVNULL, stdout=log,
            stderr=subprocess.STDOUT, start_new_session=True))
        outs.append(out)
    deadline = t0 + WATCHDOG[tier]
    reports, problems = [], []
    for k, p in enumerate(procs):
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            problems.append('watchdog: worker %d still running' % k)
            continue
        logtxt = open(os.path.join(scratch, 'log%d' % k), 'rb').read() \
            .decode('utf8', 'replace')
        if os.path.exists(outs[k]):
            reports.append(json.load(open(outs[k])))
        elif p.returncode is not None and -p.returncode in (4, 6, 7, 8, 11):
            cur = json.load(open(outs[k] + '.cur'))
            reports.append({
                'counters': {}, 'evaluations': 1, 'sigs': [], 'samples': [],
                'inconclusive': [], 'violations': [{
                    'key': 'crash:signal%d' % -p.returncode,
                    'message': 'the interpreter was killed by signal %d: %s'
                    % (-p.returncode, logtxt[-1500:]),
                    'case': cur, 'desc': None}]})
        else:
            problems.append('worker %d ended with %s: %s' % (
                k, p.returncode, logtxt[-2500:]))
    tot = merge(reports)
    level, ns = 'exploration', {}
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) and \
                getattr(node.targets[0], 'id', '') in (
                    'RULE', 'MIN', 'ASSUMPTIONS'):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    rule = ns.get('RULE', '')
    minimum = ns.get('MIN', {})
    assumptions = ns.get('ASSUMPTIONS', [])
    known = known_findings(prop)
    new, seen = [], {}
    for v in tot['violations']:
        if v['key'] in known:
            seen[v['key']] = seen.get(v['key'], 0) + 1
        else:
            new.append(v)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s (key=%s, seen %d times)' % (
            prop, known[k], k, seen[k]))
    # too few observations => inconclusive
    if not only:
        for k, n in minimum.items():
            got = len(tot['sigs']) if k == 'distinct' else \
                tot['counters'].get(k, 0)
            if got < n:
                problems.append('only %d %s observed (need %d)' % (got, k, n))
        problems += tot['inconclusive'][:5]
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': dict({
            'evaluations': tot['evaluations'],
            'distinct_nontrivial': len(tot['sigs']),
            'rule': rule,
            'samples': tot['samples'][:4],
            'monitor_observations': tot['counters'],
            'known_findings_seen': seen,
        }),
        'assumptions': assumptions,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    if not only:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if new:
        first = new[0]
        rdir = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rdir, exist_ok=True)
        keys = {}
        for v in new:
            keys.setdefault(v['key'], []).append(v)
        rp = os.path.join(rdir, '%s_%s_%s_%d.json' % (
            prop, tier, first['case']['group'], first['case']['index']))
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed,
                       'case': first['case'], 'key': first['key'],
                       'message': first['message'], 'desc': first['desc'],
                       'how': 'check.py %s --replay %s' % (prop, rp)},
                      f, indent=1)
        for k, vs in sorted(keys.items()):
            print('  key=%s x%d e.g. %s[%d]: %s' % (
                k, len(vs), vs[0]['case']['group'], vs[0]['case']['index'],
                vs[0]['message'] if a.all else vs[0]['message'][-700:]))
            if a.all:
                print('     case:', json.dumps(jsonable(vs[0]['desc']))[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE property=%s %s' % (prop, p))
        return 2
    print('OK property=%s tier=%s seed=%d: held on %d cases (%d distinct), %s '
          '[%.1fs]' % (prop, tier, seed, tot['evaluations'],
                       len(tot['sigs']), json.dumps(tot['counters']), wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
