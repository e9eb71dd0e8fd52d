"""Drive the real command line in-process, in the case's own directory."""
import os
import shutil

BANNER = 'Thank you for using this software!'
ERROR = r'/_______  / |____|_  /|____|_  /\_______  /____|_  /__'
_N = [0]


class Out:
    """What a user saw: text, exit code, exception that reached the top."""

    def __init__(self, r):
        self.text = r.output
        self.code = r.exit_code
        self.exc = r.exception
        self.tb = r.exc_info
        self.ok = BANNER in r.output
        self.crash = r.exception is not None and \
            not isinstance(r.exception, SystemExit)


def run(args, stdin=None, cwd=None):
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    old = os.getcwd()
    if cwd:
        os.chdir(cwd)
    try:
        return Out(CliRunner().invoke(cli, [str(a) for a in args],
                                      input=stdin))
    finally:
        os.chdir(old)


def must(ctx, args, stdin=None, cwd=None, key='command', log=None):
    """Run documented usage on valid input: it completes."""
    o = run(args, stdin, cwd)
    ctx.count('commands')
    if o.crash:
        import traceback
        ctx.fail(key + ':traceback', 'quantas %s: %s' % (
            ' '.join(map(str, args)),
            ''.join(traceback.format_exception(*o.tb))[-1200:]))
    if log is not None:
        with open(log, encoding='utf8') as f:
            ctx.expect(BANNER in f.read(), key + ':no-banner',
                       'no closing banner in the log of quantas %s\n%s' % (
                           ' '.join(map(str, args)), o.text[-600:]))
        if '-q' in args or '--quiet' in args:
            return o
    ctx.expect(o.ok, key + ':no-banner', 'quantas %s ended with\n%s' % (
        ' '.join(map(str, args)), o.text[-600:]))
    return o


def fresh(ctx):
    """A new empty directory for one case."""
    _N[0] += 1
    d = os.path.join(ctx.workdir, 'case%d' % _N[0])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def snapshot(d):
    """{relative path: content} of every file below d."""
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
