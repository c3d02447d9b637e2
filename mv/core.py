"""Shared pieces: per-case environment inside workers, verdict context in the
parent, evidence and known-findings handling."""
import collections
import contextlib
import hashlib
import json
import os
import re
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def make_rng(*keys):
    """Deterministic generator from any mix of ints and strings."""
    ints = [k if isinstance(k, (int, np.integer)) else zlib.crc32(str(k).encode())
            for k in keys]
    return np.random.default_rng([int(abs(i)) for i in ints])


class Stop(Exception):
    """Raised to end a batch early (enough violations recorded)."""


class Env(object):
    """What a case function sees inside a worker process."""

    def __init__(self, rank, size, scratch, tier, seed, comm=None):
        self.rank, self.size, self.scratch = rank, size, scratch
        self.tier, self.seed, self.comm = tier, seed, comm
        self.reset()

    def reset(self):
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.viols = []
        self.value = None
        self.sub = None
        self.desc = None

    # -- observations -----------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] += int(n)

    def sig(self, *parts):
        """Signature of a distinct non-trivial case."""
        self.sigs.add(repr(parts))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def viol(self, key, msg, **detail):
        self.viols.append(dict(
            key=key, msg=str(msg)[:2000], sub=self.sub, desc=repr(self.desc)[:1500],
            rank=self.rank, detail=repr(detail)[:3000] if detail else ''))
        if len(self.viols) >= 20:
            raise Stop()

    def check(self, ok, key, msg='', **detail):
        self.count('oracle_checks')
        if not ok:
            self.viol(key, msg or key, **detail)
        return ok

    def close(self, got, want, key, tol=1e-8, scale=None, what=''):
        """Oracle comparison: same shape, entries within tol * scale."""
        self.count('oracle_checks')
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.viol(key, '%s shape %s, expected %s' % (what or key, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        self.count('values_compared', got.size)
        try:
            err = np.abs(got - want)
        except TypeError as e:
            self.viol(key, '%s not numeric: %s' % (what, e))
            return False
        if scale is None:
            scale = max(1e-300, float(np.max(np.abs(want))))
        bad = ~(err <= tol * scale)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            self.viol(key, '%s differs at %s: got %r, expected %r (scale %.3g, tol %.1g, %d of %d bad)' % (
                what or key, tuple(int(j) for j in i), got[i], want[i], scale, tol, bad.sum(), bad.size))
            return False
        return True

    def equal(self, got, want, key, what=''):
        """Oracle comparison: bitwise same shape and values (dtype kind may differ)."""
        self.count('oracle_checks')
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=got.dtype.kind in 'fc' and want.dtype.kind in 'fc'):
            self.viol(key, '%s not identical: got %r, expected %r' % (what or key, got, want))
            return False
        self.count('values_compared', got.size)
        return True

    def raises(self, types, key, fn, what=''):
        """Oracle: fn must raise one of types."""
        self.count('oracle_checks')
        try:
            out = fn()
        except types as e:
            self.count('errors_observed')
            return e
        except Stop:
            raise
        except BaseException as e:
            self.viol(key, '%s raised %s (%s), expected %s' % (
                what or key, type(e).__name__, e, types))
            return None
        self.viol(key, '%s returned %s instead of raising %s' % (what or key, repr(out)[:300], types))
        return None

    @contextlib.contextmanager
    def case(self, sub, desc=None):
        """One sub-case: an escaping exception of the code under test is a violation."""
        self.sub, self.desc = sub, desc
        self.count('evaluations')
        try:
            yield
        except Stop:
            raise
        except Exception as e:
            if self.size > 1:
                raise
            tb = traceback.format_exc()
            self.viol('exception:' + type(e).__name__, 'unexpected %s: %s' % (type(e).__name__, e), tb=tb[-1800:])
        finally:
            pass


class Ctx(object):
    """Verdict of one check in the parent process."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.viols = []
        self.inconclusive = []
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 10 * quick) if self.thorough else quick

    def rng(self, *keys):
        return make_rng(self.seed, self.prop, *keys)

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def viol(self, key, msg, case=None, **detail):
        self.viols.append(dict(key=key, msg=str(msg)[:2000], case=case, sub=None,
                               desc='', rank=None, detail=repr(detail)[:3000] if detail else ''))

    def merge(self, case, obs):
        self.counts.update(obs['counts'])
        self.sigs |= obs['sigs']
        for s in obs['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)
        for v in obs['viols']:
            self.viols.append(dict(v, case=case))


def load_known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:500]


def finish(ctx, mod):
    """Write evidence, print verdict, return exit code."""
    os.makedirs(REPLAYS, exist_ok=True)
    known = load_known(ctx.prop)
    new, hit = [], {}
    for v in ctx.viols:
        if v['key'] in known:
            hit[v['key']] = v
        else:
            new.append(v)
    cov = dict(
        evaluations=int(ctx.counts.get('evaluations', 0)),
        distinct_nontrivial=len(ctx.sigs),
        rule=mod.RULE,
        samples=jsonable(ctx.samples) or ['(no sample)'],
        monitor_counts=jsonable(dict(ctx.counts)),
        inconclusive=ctx.inconclusive)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level='exploration',
              coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [
                  'numpy, scipy, mpi4py and MPICH are trusted',
                  'numerical oracles allow roundoff'])),
              wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    with open(os.path.join(EVIDENCE, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key in known:
        if key in hit:
            print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.prop, known[key], hit[key]['msg'][:160].replace('\n', ' ')))
        elif not new:
            print('note: known finding %s was not reproduced by this run' % key)
    summary = ', '.join('%s=%d' % kv for kv in sorted(ctx.counts.items()))
    print('%s %s seed=%d: %d evaluations, %d distinct, %.1fs; %s' % (
        ctx.prop, ctx.tier, ctx.seed, cov['evaluations'], len(ctx.sigs), time.time() - ctx.t0, summary))
    if new:
        seen = {}
        for v in new:
            seen.setdefault(v['key'], []).append(v)
        for key, vs in list(seen.items())[:5]:
            v = vs[0]
            h = hashlib.sha1(repr((ctx.prop, key, v['sub'], v['case'])).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, '%s-%s.json' % (ctx.prop, h))
            with open(path, 'w') as f:
                json.dump(dict(
                    property=ctx.prop, tier=ctx.tier, seed=ctx.seed, key=key,
                    message=v['msg'], sub=v['sub'], description=v['desc'], rank=v['rank'],
                    detail=v['detail'], case=jsonable(v['case']),
                    rerun='VERIF_TIER=%s VERIF_SEED=%d /opt/venv/bin/python /verif/bin/check.py %s' % (
                        ctx.tier, ctx.seed, ctx.prop), occurrences=len(vs)), f, indent=1)
            print('  %s [%s] x%d: %s\n    case %s' % (ctx.prop, key, len(vs), v['msg'], v['desc'][:300]))
            print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    missing = [r for r in getattr(mod, 'REQUIRED', ['oracle_checks']) if not ctx.counts.get(r)]
    if missing or ctx.inconclusive or not cov['evaluations'] or not ctx.sigs:
        print('INCONCLUSIVE property=%s missing=%s %s' % (ctx.prop, missing, ctx.inconclusive[:5]))
        return 3
    print('HELD property=%s on everything explored' % ctx.prop)
    return 0
