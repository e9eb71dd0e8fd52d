"""Mutation survey: which small changes of the program no check notices.

    mutate.py OUT.jsonl [--per-file N] [--seed S] [--only SUBSTRING] [--jobs J]

Works in throw-away copies under /tmp; samples mutants of every module (and
of the Cython sources), runs the first cases of the checks concerned by the
module against each, and records whether one of them raises an alarm. It is
a tool to find blind spots, no registered check.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import build as vbuild  # noqa: E402

warnings.simplefilter('ignore')

MAP = [
    ('harmonic/harmonic.py', 'C01 C02 C09 C13 C25 C30 C22 C03'),
    ('harmonic/utils', 'C26 C30 C27'),
    ('harmonic/commands', 'C30 C27 C13 C24 C26 C22 C09'),
    ('qha/qha.py', 'C07 C06 C08 C13 C25 C09 C03 C29 C30 C22'),
    ('qha/utils/ev_eos.py', 'C12 C08 C06 C07 C13'),
    ('qha/utils/kieffer.py', 'C29'),
    ('qha/utils', 'C26 C30 C27'),
    ('qha/commands', 'C30 C27 C13 C26 C22 C09 C08'),
    ('eosfit', 'C10 C11 C13 C30 C23 C27 C22 C21'),
    ('IO/qha_reader', 'C21 C22 C23 C24'),
    ('IO/soec_reader', 'C21 C22 C23 C24 C18'),
    ('IO/eos_reader', 'C21 C22 C23'),
    ('IO/hdf5_reader', 'C25'),
    ('IO', 'C24 C30 C23 C22 C27'),
    ('interfaces', 'C24 C23 C30 C22'),
    ('seismic/utils/seismic_obj', 'C17 C14 C23'),
    ('soec/utils/symmetry', 'C19'),
    ('soec/utils/soec_obj', 'C15 C14 C17 C16 C18 C19 C20 C13'),
    ('soec/soec.py', 'C13 C16 C14 C20 C18 C19 C25 C30 C17'),
    ('soec/utils', 'C26 C20 C30 C27'),
    ('soec/commands', 'C30 C27 C13 C18 C24 C26 C22'),
    ('utils/physics/units', 'C04 C03'),
    ('utils/physics', 'C01 C02 C07 C05'),
    ('utils/math', 'C28 C08 C07 C17 C05'),
    ('core', 'C13 C30 C27 C22 C23 C18'),
    ('cmdline', 'C30 C13 C27 C26'),
    ('', 'C30 C13 C24 C21'),
]
SKIP = ('seismic/seismic.py', 'seismic/commands', 'seismic/utils/export',
        'seismic_plotter', 'IO/hdf5_export', 'citations.py', 'soec/utils/plotting', '/tests/',
        'test_', 'core/export.py')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*', ast.Mod: '+', ast.FloorDiv: '*'}


def mutants(text):
    """(line, description, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = text

    def pos(line, col):
        return starts[line - 1] + len(
            lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno,
                                                n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b]
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
            docs.add(id(n.body[0]))
    out = []

    def put(n, new, what):
        a, b = span(n)
        if raw[a:b] != new:
            out.append((n.lineno, what, raw[:a] + new + raw[b:]))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (src(n.left), CMP[type(n.ops[0])],
                                 src(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str):
                continue
            put(n, '(%s %s %s)' % (src(n.left), BIN[type(n.op)],
                                   src(n.right)), 'operator')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(src(v) for v in n.values) + ')', 'boolean')
            put(n, src(n.values[0]), 'boolean-first')
            put(n, src(n.values[-1]), 'boolean-last')
        elif isinstance(n, ast.UnaryOp):
            put(n, '(%s)' % src(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), 'bool')
            elif isinstance(v, int):
                put(n, str(v + 1), 'int')
                if v:
                    put(n, str(v - 1), 'int')
            elif isinstance(v, float):
                put(n, repr(v * 1.01 if v else 0.01), 'float')
            elif isinstance(v, str) and v and src(n)[:1] in '"\'' and \
                    src(n)[:3] not in ('"""', "'''"):
                m = re.search(r'\{[^{}]*:[^{}]*?(\d)[fe]', v)
                if m:
                    d = int(m.group(1)) - 1
                    put(n, src(n).replace(m.group(), m.group()[:-2] + str(
                        max(d, 0)) + m.group()[-1], 1), 'format')
                m = re.search('[A-Za-z]', v)
                if m:
                    i = src(n).rindex(m.group())
                    put(n, src(n)[:i] + '@' + src(n)[i + 1:], 'string')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(
                n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass', 'removed')
            if isinstance(n, ast.AugAssign):
                put(n, '%s = %s' % (src(n.target), src(n.value)), 'assign')
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'removed')
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'if-true')
            put(n.test, 'False', 'if-false')
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                a = [src(x) for x in n.args]
                s, _ = span(n.args[0])
                s2, e2 = span(n.args[1])
                b, e = span(n)
                out.append((n.lineno, 'swap', raw[:s] + a[1] + raw[
                    span(n.args[0])[1]:s2] + a[0] + raw[e2:]))
            if len(n.args) == 1 and not n.keywords and isinstance(
                    n.func, (ast.Name, ast.Attribute)):
                name = getattr(n.func, 'id', getattr(n.func, 'attr', ''))
                if name in ('abs', 'float', 'int', 'sorted', 'array', 'copy',
                            'asarray', 'str', 'list', 'max', 'min'):
                    put(n, src(n.args[0]), 'unwrap')
        elif isinstance(n, ast.Attribute) and n.attr == 'copy':
            pass
        elif isinstance(n, ast.Return) and n.value is not None and not \
                isinstance(n.value, ast.Constant):
            put(n, 'return None', 'return')
    uniq, seen = [], set()
    for l, w, t in out:
        if t in seen:
            continue
        seen.add(t)
        try:
            compile(t, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        uniq.append((l, w, t))
    return uniq


def pyx_mutants(text):
    out = []
    lines = text.splitlines(True)
    doc = False
    for i, l in enumerate(lines):
        if l.count('"""') % 2:
            doc = not doc
            continue
        if doc or l.strip().startswith(('#', 'import', 'from', 'cimport',
                                        '@', '"""')):
            continue
        for pat, new in ((r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '),
                         (r' / ', ' * '), (r'\+= ', '= '), (r' < ', ' <= '),
                         (r' > ', ' >= '), (r'\b0\b', '1'), (r'\b1\b', '2'),
                         (r'\b2\b', '3'), (r'\+1\b', ''), (r'-1\b', '')):
            for m in re.finditer(pat, l):
                out.append((i + 1, 'pyx ' + pat, ''.join(
                    lines[:i] + [l[:m.start()] + new + l[m.end():]] +
                    lines[i + 1:])))
    return out


WORKER = r'''
import importlib, json, os, sys, time, warnings, signal
sys.path[:0] = [%(src)r, %(verif)r]
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
def main():
    try:
        import quantas
    except BaseException as e:
        print('KILLED import %%r' %% (e,)); return
    from vlib.core import Ctx
    os.makedirs('w', exist_ok=True); os.chdir('w')
    for prop in %(props)r:
        try:
            mod = importlib.import_module('checks.' + prop.lower())
        except BaseException as e:
            print('KILLED', prop, 'import %%r' %% (e,)); return
        ctx = Ctx('quick', %(seed)d, os.getcwd())
        ctx.src, ctx.scratch = %(src)r, %(scratch)r
        t0 = time.time()
        gs = list(mod.groups('quick'))
        i = 0
        while time.time() - t0 < %(budget)g:
            left = False
            for g in gs:
                if i < g.n:
                    left = True
                    # spread over the index range
                    ctx.run_case(g, (i * 7919) %% g.n if g.n %% 7919 else i)
                    if ctx.violations:
                        v = ctx.violations[0]
                        print('KILLED', prop, v['key'], v['message'][-200:].replace('\n', ' '))
                        return
                if time.time() - t0 > 2 * %(budget)g:
                    break
            i += 1
            if not left:
                break
        del mod
    print('SURVIVED')
main()
sys.stdout.flush()
os._exit(0)
'''


def one(job):
    base, rel, line, what, new, props, budget, seed = job
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        src = os.path.join(d, 'src')
        shutil.copytree(base, src, symlinks=True)
        with open(os.path.join(src, rel), 'w', newline='') as f:
            f.write(new)
        env = vbuild.clean_env(d)
        for x in ('tmp', 'mpl'):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        if rel.endswith('.pyx'):
            stem = os.path.join(src, rel[:-4])
            for n in os.listdir(os.path.dirname(stem)):
                if n.startswith(os.path.basename(stem) + '.') and \
                        n.endswith(('.so', '.c')):
                    os.remove(os.path.join(os.path.dirname(stem), n))
            r = subprocess.run([vbuild.PY, 'setup.py', '-q', 'build_ext',
                                '--inplace'], cwd=src, env=env,
                               capture_output=True)
            if r.returncode:
                return rel, line, what, 'NOBUILD'
        env['PYTHONPATH'] = src + os.pathsep + VERIF
        env['OMP_NUM_THREADS'] = '2'
        code = WORKER % {'src': src, 'verif': VERIF, 'props': props,
                         'seed': seed, 'scratch': d, 'budget': budget}
        p = subprocess.Popen([vbuild.PY, '-B', '-c', code], cwd=d, env=env,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=60 + 4 * budget * len(props))
        except subprocess.TimeoutExpired:
            out = b'KILLED timeout'
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        out = out.decode('utf8', 'replace').strip().splitlines()
        res = [l for l in out if l.startswith(('KILLED', 'SURVIVED'))]
        return rel, line, what, res[-1] if res else 'KILLED crash ' + str(
            out[-1:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per-file', type=float, default=0.1,
                    help='fraction of the mutants of each file')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only', default='')
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--budget', type=float, default=6)
    ap.add_argument('--redo', help='only the survivors of that file')
    a = ap.parse_args()
    top = tempfile.mkdtemp(prefix='mutbase_')
    base = vbuild.build(top)
    rng = random.Random(a.seed)
    again = None
    if a.redo:
        again = set()
        for l in open(a.redo):
            r = json.loads(l)
            if r['result'] == 'SURVIVED':
                again.add((r['file'], r['line'], r['what'], r['new']))
    jobs, news = [], []
    for root, _, names in sorted(os.walk(os.path.join(base, 'quantas'))):
        for n in sorted(names):
            rel = os.path.relpath(os.path.join(root, n), base)
            if not n.endswith(('.py', '.pyx')) or any(s in rel for s in SKIP):
                continue
            text = open(os.path.join(base, rel), newline='').read()
            ms = (pyx_mutants if n.endswith('.pyx') else mutants)(text)
            if not again:
                ms = [m for m in ms if rng.random() < a.per_file]
            props = next(p for k, p in MAP if k in rel).split()
            props = [p for p in props if p != 'C05']
            old = text.splitlines()
            for line, what, new in ms:
                nl = new.splitlines()
                k = next((i for i in range(min(len(old), len(nl))) if
                          old[i] != nl[i]), line - 1)
                txt = nl[k].strip() if k < len(nl) else ''
                if a.only not in rel:
                    continue
                if again is not None and (rel, line, what, txt) not in again:
                    continue
                jobs.append((base, rel, line, what, new, props, a.budget,
                             a.seed))
                news.append((old[k].strip() if k < len(old) else '', txt))
    order = list(range(len(jobs)))
    rng.shuffle(order)
    print(len(jobs), 'mutants', flush=True)
    t0, n, s = time.time(), 0, 0
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, \
            open(a.out, 'a') as f:
        fs = {ex.submit(one, jobs[i]): i for i in order}
        for fu in concurrent.futures.as_completed(fs):
            i = fs[fu]
            try:
                rel, line, what, res = fu.result()
            except Exception as e:
                print('error', e, flush=True)
                continue
            n += 1
            s += res == 'SURVIVED'
            f.write(json.dumps({'file': rel, 'line': line, 'what': what,
                                'old': news[i][0], 'new': news[i][1],
                                'result': res}) + '\n')
            f.flush()
            if n % 50 == 0:
                print('%d done, %d survived, %.0f s' % (
                    n, s, time.time() - t0), flush=True)
    print('%d done, %d survived' % (n, s))
    shutil.rmtree(top, ignore_errors=True)


if __name__ == '__main__':
    main()
