"""Observation recorder and oracle helpers shared by every monitor.

A check module (checks/cNN.py) exposes

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial
    MIN        {counter: minimum}: fewer observations => inconclusive (exit 2)
    groups(tier) -> [Group(name, n, fn)]

and every case fn(ctx, rng, index) drives the real code and feeds what it
observed to the oracles of ``ctx``.
"""
import hashlib
import json
import traceback

import numpy as np


class Group:
    def __init__(self, name, n, fn):
        self.name, self.n, self.fn = name, n, fn


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 64 else \
            'array%s[%s...]' % (o.shape, ', '.join(
                '%.6g' % v for v in np.ravel(o)[:6]))
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


class Ctx:
    """One per worker. Collects what the monitors observed."""

    def __init__(self, tier, seed, workdir):
        self.tier, self.seed, self.workdir = tier, seed, workdir
        self.counters = {}
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self._case = None
        self._desc = None

    # -- bookkeeping ----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def describe(self, **kw):
        """Describe the current case (goes in samples and replay files)."""
        self._desc = jsonable(kw)

    def nontrivial(self, *what):
        """Record the case's distinguishing signature."""
        h = hashlib.sha1(json.dumps(jsonable(what), sort_keys=True)
                         .encode()).hexdigest()[:16]
        self.sigs.add(h)

    # -- oracles --------------------------------------------------------
    def fail(self, key, msg):
        raise Violation(key, msg)

    def expect(self, cond, key, msg='', **info):
        self.count('oracle_evaluations')
        if not bool(cond):
            if info:
                msg += ' ' + json.dumps(jsonable(info))[:1500]
            raise Violation(key, msg)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, msg='', scale=None):
        """got and want agree to rtol*max|want| (or scale) + atol, and have
        the same shape and no NaN where want has none."""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        self.count('oracle_evaluations')
        self.count('values_compared', w.size)
        if g.shape != w.shape:
            raise Violation(key, '%s: shape %s, expected %s' %
                            (msg or key, g.shape, w.shape))
        if w.size == 0:
            return
        ref = np.abs(w) if scale is None else np.asarray(scale, dtype=float)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(g - w) <= atol + rtol * ref)
        bad &= ~(g == w)
        if np.any(bad):
            idx = np.unravel_index(np.argmax(bad), w.shape) if w.ndim else ()
            raise Violation(
                key, '%s: observed %.12g, expected %.12g at %s (%d of %d '
                'values differ; rtol=%g atol=%g)' % (
                    msg or key, g[idx], w[idx], tuple(int(i) for i in idx),
                    int(bad.sum()), w.size, rtol, atol))

    def same(self, got, want, key, msg=''):
        """Bitwise equality of arrays / equality of values."""
        self.count('oracle_evaluations')
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            self.count('values_compared', w.size)
            ok = g.shape == w.shape and np.array_equal(
                g, w, equal_nan=g.dtype.kind == 'f' and w.dtype.kind == 'f')
        else:
            ok = got == want
        if not ok:
            raise Violation(key, '%s: observed %s, expected %s' % (
                msg or key, json.dumps(jsonable(got))[:600],
                json.dumps(jsonable(want))[:600]))

    # -- running --------------------------------------------------------
    def run_case(self, group, index):
        self._case = {'group': group.name, 'index': index}
        self._desc = None
        gid = int(hashlib.sha1(group.name.encode()).hexdigest()[:8], 16)
        rng = np.random.default_rng([self.seed, gid, index])
        self.evaluations += 1
        try:
            group.fn(self, rng, index)
        except Violation as v:
            self._violation(v.key, v.msg)
        except Inconclusive as e:
            self.inconclusive.append('%s[%d]: %s' % (group.name, index, e))
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if getattr(e, 'errno', None) in (12, 24, 28, 122):
                raise
            self._violation('exception:' + type(e).__name__,
                            'unexpected exception: ' +
                            traceback.format_exc()[-1500:])
        except Exception as e:
            self._violation('exception:' + type(e).__name__,
                            'unexpected exception: ' +
                            traceback.format_exc()[-1500:])
        except SystemExit as e:
            self._violation('exception:SystemExit',
                            'unexpected SystemExit(%s)' % (e.code,))
        if self._desc is not None and len(self.samples) < 3:
            self.samples.append(dict(self._case, **{'case': self._desc}))

    def _violation(self, key, msg):
        self.violations.append({
            'key': key, 'message': msg, 'case': self._case,
            'desc': self._desc})

    def report(self):
        return {'counters': self.counters, 'evaluations': self.evaluations,
                'sigs': sorted(self.sigs), 'samples': self.samples,
                'violations': self.violations,
                'inconclusive': self.inconclusive}
