"""C05: compiled kernels under sanitizers and hostile schedules."""
import fcntl
import json
import os
import re
import subprocess

from vlib import build
from vlib.core import Group, Inconclusive

PROPERTY = 'C05'
RULE = ('every kernel of the three extensions over random shapes (0, 1 and '
        'up to 130 per axis) and values (zero and negative frequencies, zero '
        'temperatures, zero heat capacities): (memory) AddressSanitizer + '
        'UndefinedBehaviorSanitizer build with poisoned allocations; '
        '(threads) ThreadSanitizer build on an OpenMP runtime whose shares '
        'are ordered by nothing but creation and join, plus simultaneous '
        'Python callers; (schedules) normal build with permuted, preempted, '
        'delayed and over-subscribed schedules of that runtime and with the '
        'real libgomp, compared bit for bit with one thread; all against '
        'reference values and row-by-row calls; non-trivial = distinct '
        '(kernel, shapes)')
MIN = {'distinct': 300, 'sanitized_calls': 500, 'race_watched_calls': 300,
       'scheduled_calls': 2000, 'rows': 2000, 'shim_regions': 2000}
ASSUMPTIONS = ['array lengths are mutually consistent, as the callers make '
               'them',
               'row-by-row values agree to 1e-14 of the terms summed; '
               'reference values to 1e-9',
               'interleavings inside one share come from ThreadSanitizer\'s '
               'happens-before analysis, not from enumeration']
OMP_THREADS = 2
WORKERS = 8

NATIVE = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'vlib', 'native')
FLAGS = {
    'memory': '-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined '
              '-fno-sanitize-recover=undefined',
    'threads': '-g -O1 -fno-omit-frame-pointer -fsanitize=thread',
}


def gcc_file(name):
    p = subprocess.run(['gcc', '-print-file-name=' + name],
                       stdout=subprocess.PIPE, text=True)
    return os.path.realpath(p.stdout.strip())


def make_shim(scratch, mode):
    so = os.path.join(scratch, 'shim_%s.so' % mode)
    if not os.path.exists(so):
        extra = FLAGS['threads'].split() if mode == 'threads' else ['-O2']
        subprocess.run(['gcc', '-shared', '-fPIC', '-pthread'] + extra +
                       ['-o', so + '.tmp', os.path.join(NATIVE, 'shim.c')],
                       check=True)
        os.replace(so + '.tmp', so)
    return so


def prepared(ctx, mode):
    """(source tree, shim or None) built once per check run."""
    with open(os.path.join(ctx.scratch, 'c05.%s.lock' % mode), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = ctx.src
        if mode in FLAGS:
            src = os.path.join(ctx.scratch, 'src_' + mode)
            if not os.path.exists(os.path.join(src, '.done')):
                try:
                    build.build(ctx.scratch, {'CFLAGS': FLAGS[mode],
                                              'LDFLAGS': FLAGS[mode]},
                                'src_' + mode)
                except RuntimeError as exc:
                    raise Inconclusive(str(exc))
                open(os.path.join(src, '.done'), 'w').close()
        shim = None
        if mode != 'memory':
            shim = make_shim(ctx.scratch, mode)
            if not needs(src) <= symbols(shim, '--defined-only'):
                shim = None
    return src, shim


def symbols(so, which):
    p = subprocess.run(['nm', '-D', which, so], stdout=subprocess.PIPE,
                       text=True)
    return set(re.findall(r'(?m) ((?:GOMP|omp)_\w+)', p.stdout))


def needs(src):
    out = set()
    for root, _, files in os.walk(os.path.join(src, 'quantas')):
        for f in files:
            if f.endswith('.so'):
                out |= symbols(os.path.join(root, f), '--undefined-only')
    return out


def child(ctx, rng, index, mode, cases, real=False):
    src, shim = prepared(ctx, mode)
    if real:
        shim = None
    if mode == 'threads' and shim is None:
        ctx.count('shim_unsupported')
        return
    out = os.path.join(ctx.workdir, 'native.json')
    if os.path.exists(out):
        os.remove(out)
    env = build.clean_env(ctx.scratch)
    env['PYTHONPATH'] = src + os.pathsep + os.path.dirname(
        os.path.dirname(NATIVE))
    env['PYTHONMALLOC'] = 'malloc'
    env['OMP_NUM_THREADS'] = '4'
    env['OMP_WAIT_POLICY'] = 'passive'
    preload = []
    log = os.path.join(ctx.workdir, 'san')
    for f in os.listdir(ctx.workdir):
        if f.startswith('san.'):
            os.remove(os.path.join(ctx.workdir, f))
    if mode == 'memory':
        preload = [gcc_file('libasan.so'), gcc_file('libubsan.so')]
        env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:'
                               'max_malloc_fill_size=1073741824:'
                               'malloc_fill_byte=190:log_path=' + log)
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=77:log_path=' + log
    elif mode == 'threads':
        preload = [gcc_file('libtsan.so')]
        env['TSAN_OPTIONS'] = ('exitcode=0:halt_on_error=0:history_size=4:'
                               'report_signal_unsafe=0:log_path=' + log)
    if shim:
        preload.append(shim)
    if preload:
        env['LD_PRELOAD'] = ':'.join(preload)
    spec = dict(mode=mode, seed=ctx.seed, index=index, cases=cases, src=src,
                out=out, shim=shim)
    ctx.describe(mode=mode, index=index, cases=cases, real=real)
    # the address space must be small enough for the sanitizers' shadow
    cmd = ['setarch', '-R'] if mode == 'threads' and may_fix_addresses() \
        else []
    p = subprocess.run(cmd + [build.PY, '-W', 'ignore', '-B', '-m',
                              'vlib.native.kernels', json.dumps(spec)],
                       cwd=ctx.workdir, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=700)
    text = p.stdout.decode('utf8', 'replace')
    reports = ''
    for f in sorted(os.listdir(ctx.workdir)):
        if f.startswith('san.'):
            with open(os.path.join(ctx.workdir, f), errors='replace') as h:
                reports += h.read()
    if mode == 'memory':
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: '
                      r'[^\n]*)', reports + text)
        if m:
            ctx.expect(False, 'sanitizer', m.group(1)[:300],
                       report=(reports + text)[:3000])
            return
    if mode == 'threads':
        for r in re.split(r'(?m)^={18,}$', reports + text):
            if 'WARNING: ThreadSanitizer: data race' in r and \
                    re.search(r'(statistical_mechanics|thermodynamics|'
                              r'fast_math|quantas)[\w/.-]*\.(c|so|pyx)', r):
                where = re.search(r'#0 (\S+) ', r)
                if 'shim' in r.split('#1')[0]:
                    continue        # the harness itself
                ctx.expect(False, 'race', 'data race in %s' % (
                    where.group(1) if where else '?'), report=r[:2500])
                break
    if p.returncode < 0 or p.returncode in (134, 139):
        ctx.expect(False, 'crash', 'the kernels crashed (%s build): exit %d'
                   % (mode, p.returncode), report=text[-1500:])
        return
    if 'Traceback' in text and not os.path.exists(out):
        if 'quantas' in text.split('Traceback')[-1] or 'Error' in text:
            ctx.expect(False, 'exception', 'a kernel raised on valid input',
                       report=text[-1500:])
            return
    if not os.path.exists(out):
        raise Inconclusive('%s run ended with %d: %s' % (
            mode, p.returncode, text[-800:]))
    with open(out) as f:
        r = json.load(f)
    for key, msg, args in r['problems']:
        ctx.expect(False, key, msg, args=args, mode=mode)
    for k, n in r['counters'].items():
        ctx.count(k, n)
    tag = {'memory': 'sanitized_calls', 'threads': 'race_watched_calls'}
    if mode in tag:
        ctx.count(tag[mode], r['counters'].get('calls', 0))
    if r['shim']:
        for k, n in zip(('shim_regions', 'shim_threads', 'shim_barriers',
                         'shim_switches'), r['shim']):
            ctx.count(k, n)
    for s in r['shapes']:
        ctx.nontrivial(s)
    ctx.expect(True, 'ran')


def may_fix_addresses():
    p = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    return p.returncode == 0


def memory(ctx, rng, index):
    child(ctx, rng, index, 'memory', 8 if ctx.tier == 'quick' else 60)


def threads(ctx, rng, index):
    child(ctx, rng, index, 'threads', 6 if ctx.tier == 'quick' else 30)


def schedules(ctx, rng, index):
    child(ctx, rng, index, 'schedules', 9 if ctx.tier == 'quick' else 60)


def libgomp(ctx, rng, index):
    child(ctx, rng, index, 'schedules', 9 if ctx.tier == 'quick' else 60,
          real=True)


def groups(tier):
    k = 1 if tier == 'quick' else 8
    return [Group('memory', 4 * k, memory), Group('threads', 4 * k, threads),
            Group('schedules', 4 * k, schedules),
            Group('libgomp', 2 * k, libgomp)]
