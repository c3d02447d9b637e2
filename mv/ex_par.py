"""Task assignment, custom reductions and broadcast helpers on real processes."""
import functools
import pickle
import time

import numpy as np
from modred import parallel
from modred.reductions import Intracomm
from mpi4py import MPI

from .core import make_rng
from .ex_vs import pick
from .instr import make_delay, PROFILES


# ================================================================ C05
class Task(object):
    """A task that can only be told apart by identity."""

    def __init__(self, n):
        self.n = n


def task_list(rng, n, kind):
    if kind == 'range':
        return range(n)
    if kind == 'list':
        return list(range(n))
    if kind == 'shuffled':
        return [int(x) for x in rng.permutation(n)]
    if kind == 'repeated':
        return [int(x) for x in rng.integers(0, 3, n)]
    if kind == 'tuple':
        return tuple(range(n))
    if kind == 'str':
        return ['t%d' % j for j in range(n)]
    if kind == 'pairs':
        return [(j, -j) for j in range(n)]
    if kind == 'falsy':
        return [pick(rng, [None, 0, '', [], False]) for _ in range(n)]
    if kind == 'object':
        return [Task(j) for j in range(n)]
    if kind == 'array':
        return np.arange(n)
    raise ValueError(kind)


TASKS = ['list', 'range', 'shuffled', 'repeated', 'tuple', 'str', 'pairs', 'falsy', 'object', 'array']


def ident(t):
    return t.n if isinstance(t, Task) else (int(t) if isinstance(t, (np.integer,)) else repr(t))


def task_weights(rng, n, kind):
    if kind == 'ones':
        return np.ones(n)
    if kind == 'same':
        return [float(pick(rng, [.5, .1, 1. / 3, 3e-7, rng.uniform(.01, 50)]))] * n
    if kind == 'small':
        return rng.uniform(0, 1, n) * 10. ** rng.uniform(-12, 0)
    if kind == 'uniform':
        return rng.uniform(0, 1, n)
    if kind == 'int':
        return [int(x) for x in rng.integers(0, 9, n)]
    if kind == 'narrow':
        # types too narrow for the sum of all weights
        t = pick(rng, ['int8', 'uint8', 'int16', 'float32'])
        top = dict(int8=120, uint8=250, int16=30000, float32=1e6)[t]
        low = 0 if rng.random() < .5 else .9 * top
        return np.array(rng.uniform(low, top, n)).astype(t)
    if kind == 'zeros':
        return [0] * n
    if kind == 'somezero':
        return rng.uniform(0, 1, n) * (rng.random(n) < .5)
    if kind == 'leadingzero':
        w = rng.uniform(.5, 1, n)
        w[:int(rng.integers(0, n + 1))] = 0
        return w
    if kind == 'trailingzero':
        w = rng.uniform(.5, 1, n)
        w[n - int(rng.integers(0, n + 1)):] = 0
        return w
    if kind == 'huge':
        w = rng.uniform(0, 1, n)
        if n:
            w[int(rng.integers(n))] = 10. ** int(rng.integers(2, 12))
        return w
    if kind == 'wide':
        return 10. ** rng.uniform(-9, 9, n)
    if kind in ('giants', 'falling'):
        w = rng.uniform(0, 1, n) if rng.random() < .5 else np.ones(n)
        if kind == 'falling':
            return w * 10. ** np.linspace(rng.uniform(0, 40), rng.uniform(-40, 0), n)
        w[:int(rng.integers(0, 3))] = 10. ** rng.uniform(14, 25)
        if n and rng.random() < .5:
            w[int(rng.integers(n))] = 10. ** rng.uniform(14, 25)
        return w
    if kind == 'descending':
        return [float(n - j) for j in range(n)]
    if kind == 'ascending':
        return [float(j) for j in range(n)]
    if kind == 'triangle':
        return np.array([n - j - .5 for j in range(n)])
    raise ValueError(kind)


WEIGHTS = ['ones', 'same', 'narrow', 'small', 'uniform', 'int', 'zeros', 'somezero', 'leadingzero', 'trailingzero', 'huge', 'wide', 'giants', 'falling', 'descending', 'ascending', 'triangle']


def judge_assign(env, tasks, w, got, tag):
    p = env.size
    if not env.check(isinstance(got, (list, tuple)) and len(got) == p, 'assign-length', '%d entries for %d processes: %r' % (len(got), p, got)):
        return
    try:
        flat = [t for part in got for t in part]
    except TypeError:
        env.viol('assign-entries', 'an entry of the assignment is not a sequence: %r' % (got,))
        return
    n = len(tasks)
    same = len(flat) == n and all(a is b or ident(a) == ident(b) for a, b in zip(flat, tasks))
    env.check(same, 'assign-partition', 'tasks %r assigned as %r' % (list(tasks)[:40], got))
    sizes = [len(x) for x in got]
    if w is None or (len(w) and min(w) == max(w) and w[0] > 0):
        lo, hi = n // p, -(-n // p)
        env.check(all(lo <= s <= hi for s in sizes), 'assign-uniform', '%d equal tasks over %d processes: %s' % (n, p, sizes))
        env.count('uniform_balance_checked')
    if w is not None and same:
        ww = np.asarray(w, dtype=float)
        first = 0
        for k, s in enumerate(sizes):
            rem = float(ww[first:].sum())
            big = float(ww[first:].max()) if first < n else 0.
            mine = float(ww[first:first + s].sum())
            share = rem / (p - k)
            env.check(mine <= share + big + 1e-9 * rem, 'assign-weight',
                      'process %d of %d gets weight %g, even share of the remaining weight is %g, largest remaining task %g; sizes %s' % (k, p, mine, share, big, sizes))
            env.check(mine >= share - big - 1e-9 * rem, 'assign-weight',
                      'process %d of %d gets only weight %g, even share of the remaining weight is %g, largest remaining task %g; sizes %s' % (k, p, mine, share, big, sizes))
            first += s
            env.count('weight_bounds_checked')
    env.check(bool(parallel.check_for_empty_tasks(got)) == (min(sizes) == 0), 'assign-empty', 'check_for_empty_tasks for sizes %s' % sizes)
    env.count('assignments_checked')
    env.count('tasks_assigned', n)
    allr = env.comm.allgather([[ident(t) for t in part] for part in got]) if env.size > 1 else []
    env.check(all(a == allr[0] for a in allr), 'assign-ranks-differ', 'processes computed different assignments: %r' % (allr,))


def assign_uniform(env, lo, hi):
    for n in range(lo, hi):
        with env.case(n, dict(np=env.size, n=n)):
            tasks = list(range(n))
            judge_assign(env, tasks, None, parallel.find_assignments(tasks), 'uniform')
            judge_assign(env, tasks, [1.] * n, parallel.find_assignments(tasks, task_weights=[1.] * n), 'uniform')
            if n:
                env.sig('uniform', env.size, n)


def assign_case(env, i):
    rng = make_rng(env.seed, 'assign', i, env.size)
    n = int(pick(rng, [0, 1, 2, 3, env.size - 1, env.size, env.size + 1, 2 * env.size, 3 * env.size + 1, int(rng.integers(0, 40)), int(rng.integers(0, 300))]))
    n = max(n, 0)
    tk, wk = pick(rng, TASKS), pick(rng, WEIGHTS + [None])
    with env.case(i, dict(np=env.size, n=n, tasks=tk, weights=wk)):
        tasks = task_list(rng, n, tk)
        w = None if wk is None else task_weights(rng, n, wk)
        keep = None if w is None else np.array(w)
        tcopy = list(tasks)
        got = parallel.find_assignments(tasks, task_weights=w) if w is not None or rng.random() < .5 else parallel.find_assignments(tasks)
        env.desc = dict(env.desc, w=None if w is None else list(w)[:40])
        judge_assign(env, tasks, w, got, wk)
        env.check(len(tcopy) == len(tasks) and all(a is b or ident(a) == ident(b) for a, b in zip(tcopy, tasks)), 'assign-input', 'the task list was modified')
        if w is not None:
            env.check(np.array_equal(keep, np.array(w)), 'assign-input', 'the weights were modified')
        if n > 1:
            env.sig(env.size, n, tk, wk)
        env.sample(dict(np=env.size, n=n, tasks=tk, weights=wk, sizes=[len(x) for x in got]))


# ================================================================ C06
def affine(f, g):
    """f then g, on x -> a x + b modulo a prime: associative, not commutative."""
    return (f[0] * g[0] % 10007, (f[1] * g[0] + g[1]) % 10007)


def matmul(a, b):
    return (a.dot(b)) % 1009


def cat(a, b):
    return a + b


def compose(a, b):
    return b[a]


def left(a, b):
    return a


def right(a, b):
    return b


def npcat(a, b):
    return np.concatenate((a, b))


class Poly(object):
    """User object with + that is neither commutative nor in place."""

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, other):
        return Poly(self.parts + other.parts)

    def __eq__(self, other):
        return isinstance(other, Poly) and self.parts == other.parts

    def __repr__(self):
        return 'Poly(%r)' % (self.parts,)
    __hash__ = None


def contribution(rng, kind, r):
    if kind == 'str':
        return 'r%d;' % r
    if kind == 'list':
        return [r, [int(rng.integers(9))]]
    if kind == 'tuplesum':
        return (r,)
    if kind == 'poly':
        return Poly([r])
    if kind == 'matrix':
        return rng.integers(0, 50, (3, 3)).astype(object)
    if kind == 'affine':
        return (int(rng.integers(1, 100)), int(rng.integers(100)))
    if kind == 'perm':
        return rng.permutation(11)
    if kind == 'int':
        return int(rng.integers(-1000, 1000))
    if kind == 'array':
        return rng.integers(-9, 9, (2, 3))
    if kind == 'complex':
        return complex(int(rng.integers(-9, 9)), int(rng.integers(-9, 9)))
    if kind == 'max' or kind == 'min':
        return int(rng.integers(-5, 5))
    if kind in ('minloc', 'maxloc'):
        return int(rng.integers(0, 3))
    if kind in ('minlocf', 'maxlocf'):
        return float(rng.integers(0, 3)) / 3
    if kind == 'big':
        return rng.integers(-9, 9, 40000).astype(float)
    if kind == 'bigcat':
        return np.full(int(rng.integers(1, 30000)), float(r))
    if kind in ('left', 'right'):
        return r
    if kind == 'none':
        return pick(rng, [None, 0, '', r])
    if kind == 'prod':
        return int(rng.integers(1, 5))
    raise ValueError(kind)


OPS = {
    'str': (MPI.SUM, cat), 'list': (MPI.SUM, cat), 'tuplesum': (MPI.SUM, cat), 'poly': (MPI.SUM, cat),
    'matrix': (matmul, matmul), 'affine': (affine, affine), 'perm': (compose, compose), 'int': (MPI.SUM, cat),
    'array': (MPI.SUM, cat), 'complex': (MPI.SUM, cat), 'max': (MPI.MAX, max), 'min': (MPI.MIN, min),
    'big': (MPI.SUM, cat), 'bigcat': (npcat, npcat), 'left': (left, left), 'right': (right, right),
    'none': (left, left), 'prod': (MPI.PROD, lambda a, b: a * b),
    'minloc': (MPI.MINLOC, None), 'maxloc': (MPI.MAXLOC, None), 'minlocf': (MPI.MINLOC, None), 'maxlocf': (MPI.MAXLOC, None),
}


def fold(kind, parts):
    """Reference: rank-ordered combination of the contributions (parts: list by rank)."""
    if kind.startswith('minloc'):
        m = min(parts)
        return (m, parts.index(m))
    if kind.startswith('maxloc'):
        m = max(parts)
        return (m, parts.index(m))
    return functools.reduce(OPS[kind][1], parts)


def same_value(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(b, tuple) and isinstance(a, (tuple, list)):
        return tuple(a) == b
    if (a is None) != (b is None):
        return False
    return type(a) == type(b) and a == b if not isinstance(b, (int, float)) else a == b


def reduction_case(env, i):
    """A sequence of mixed reductions without synchronization in between."""
    rng = make_rng(env.seed, 'red', i, env.size)
    comm = env.comm
    where = pick(rng, ['custom_comm', 'world', 'split', 'reversed'])
    sub = None
    if where == 'custom_comm':
        c = parallel.custom_comm
        group = list(range(env.size))
    elif where == 'world':
        c = Intracomm(comm)
        group = list(range(env.size))
    else:
        if where == 'split':
            ncol = int(rng.integers(1, max(2, min(3, env.size)) + 1))
            colors = [int(x) for x in rng.integers(0, ncol, env.size)]
            keys = [int(x) for x in rng.permutation(env.size)]
        else:
            colors = [0] * env.size
            keys = [env.size - r for r in range(env.size)]
        sub = comm.Split(colors[env.rank], keys[env.rank])
        c = Intracomm(sub)
        group = sorted([r for r in range(env.size) if colors[r] == colors[env.rank]], key=lambda r: keys[r])
    me = group.index(env.rank)
    env.check(c.Get_rank() == me and c.Get_size() == len(group), 'reduction-comm', 'rank or size of the communicator')
    profile = pick(rng, PROFILES)
    delay = make_delay(make_rng(env.seed, 'reddelay', i, env.size), profile, env.rank, env.size)
    calls = []
    with env.case(i, dict(np=env.size, where=where, profile=profile)):
        for step in range(int(rng.integers(3, 9))):
            kind = pick(rng, list(OPS))
            which = pick(rng, ['reduce', 'allreduce', 'scan', 'exscan'])
            data = [contribution(rng, kind, r) for r in range(env.size)]
            root = int(rng.integers(0, 1 << 20)) % len(group)
            if kind in ('int', 'str', 'poly', 'matrix') and rng.random() < .2:
                # same data to be used for two calls in a row
                pass
            parts = [data[r] for r in group]
            mine = parts[me]
            before = pickle.dumps(mine)
            op = OPS[kind][0]
            env.desc = dict(np=env.size, where=where, group=group, step=step, kind=kind, which=which, root=root, profile=profile)
            if delay is not None:
                delay('reduce')
            kw = {} if op is MPI.SUM and rng.random() < .5 else dict(op=op)
            if which == 'reduce':
                if root == 0 and rng.random() < .5:
                    got = c.reduce(mine, **kw)
                else:
                    got = c.reduce(mine, root=root, **kw)
                want = fold(kind, parts) if me == root else None
                env.check(same_value(got, want), 'reduce-value', '%s on rank %d (root %d) of %d gives %r, expected %r' % (kind, me, root, len(group), short(got), short(want)))
            elif which == 'allreduce':
                got = c.allreduce(mine, **kw)
                want = fold(kind, parts)
                env.check(same_value(got, want), 'allreduce-value', '%s on rank %d of %d gives %r, expected %r' % (kind, me, len(group), short(got), short(want)))
            elif which == 'scan':
                got = c.scan(mine, **kw)
                want = fold(kind, parts[:me + 1])
                env.check(same_value(got, want), 'scan-value', '%s on rank %d of %d gives %r, expected %r' % (kind, me, len(group), short(got), short(want)))
            else:
                got = c.exscan(mine, **kw)
                want = fold(kind, parts[:me]) if me else None
                env.check(same_value(got, want), 'exscan-value', '%s on rank %d of %d gives %r, expected %r' % (kind, me, len(group), short(got), short(want)))
            env.check(pickle.dumps(mine) == before, 'reduction-input', '%s modified the contribution' % which)
            env.count(which + '_checked')
            env.sig(env.size, len(group), where, kind, which, root if which == 'reduce' else 0, profile)
            calls.append((kind, which))
        env.sample(dict(np=env.size, where=where, group=group, calls=calls))
    if sub is not None:
        sub.Free()


def short(x):
    return repr(x)[:200]


def reduction_roots(env):
    """Every root, every operation kind, on all sizes of leading sub-groups."""
    rng = make_rng(env.seed, 'redroots', env.size)
    for m in range(1, env.size + 1):
        sub = env.comm.Split(0 if env.rank < m else 1, env.rank)
        c = Intracomm(sub)
        if env.rank < m:
            for kind in ('str', 'affine', 'minloc', 'maxloc', 'int'):
                parts = [contribution(make_rng(env.seed, 'c', m, kind, r), kind, r) for r in range(m)]
                op = OPS[kind][0]
                with env.case((m, kind), dict(m=m, kind=kind)):
                    for root in range(m):
                        got = c.reduce(parts[env.rank], op=op, root=root)
                        want = fold(kind, parts) if env.rank == root else None
                        env.check(same_value(got, want), 'reduce-value', '%s rank %d root %d of %d gives %r, expected %r' % (kind, env.rank, root, m, got, want))
                        env.count('reduce_checked')
                    env.check(same_value(c.allreduce(parts[env.rank], op=op), fold(kind, parts)), 'allreduce-value', '%s on %d of %d' % (kind, env.rank, m))
                    env.check(same_value(c.scan(parts[env.rank], op=op), fold(kind, parts[:env.rank + 1])), 'scan-value', '%s on %d of %d' % (kind, env.rank, m))
                    env.check(same_value(c.exscan(parts[env.rank], op=op), fold(kind, parts[:env.rank]) if env.rank else None), 'exscan-value', '%s on %d of %d' % (kind, env.rank, m))
                    env.sig('roots', env.size, m, kind)
        sub.Free()


# ================================================================ C29 (parallel part)
def bcast_case(env, i):
    rng = make_rng(env.seed, 'bcast', i, env.size)
    delay = make_delay(rng, pick(rng, PROFILES), env.rank, env.size)
    with env.case(i, dict(np=env.size)):
        for step in range(6):
            zero = pick(rng, [None, 0, 'text', [1, [2]], dict(a=1), np.arange(6.).reshape(2, 3), (1, 'x'), 3.5, 2 + 1j,
                              rng.standard_normal(30000), '', [], False])
            own = ['other', -env.rank, None, np.zeros(3)][int(rng.integers(4))]
            own = zero if env.rank == 0 else own
            which = pick(rng, ['bcast', 'call_and_bcast', 'call_from_rank_zero', 'barrier', 'kwargs'])
            env.desc = dict(np=env.size, step=step, which=which, value=short(zero))
            if delay is not None:
                delay('x')
            calls = [0]
            args = []

            def f(*a, **k):
                calls[0] += 1
                args.append((a, k))
                return a[0]
            if which == 'bcast':
                got = parallel.bcast(own)
                env.check(same_value(got, zero), 'bcast-value', 'bcast on rank %d gives %s, expected %s' % (env.rank, short(got), short(zero)))
            elif which in ('call_and_bcast', 'kwargs'):
                got = parallel.call_and_bcast(f, own, env.rank) if which == 'call_and_bcast' else parallel.call_and_bcast(f, own, key=env.rank)
                env.check(same_value(got, zero), 'bcast-value', 'call_and_bcast on rank %d gives %s, expected %s' % (env.rank, short(got), short(zero)))
                env.check(calls[0] == (1 if env.rank == 0 else 0), 'bcast-calls', 'function called %d times on rank %d' % (calls[0], env.rank))
                if env.rank == 0 and calls[0]:
                    a, k = args[0]
                    env.check((a[1:], k) == (((0,), {}) if which == 'call_and_bcast' else ((), dict(key=0))), 'bcast-args', 'arguments %s %s' % (a[1:], k))
            elif which == 'call_from_rank_zero':
                got = parallel.call_from_rank_zero(f, own, 1, b=2)
                env.check(same_value(got, zero) if env.rank == 0 else got is None, 'rankzero-value', 'call_from_rank_zero on rank %d gives %s' % (env.rank, short(got)))
                env.check(calls[0] == (1 if env.rank == 0 else 0), 'bcast-calls', 'function called %d times on rank %d' % (calls[0], env.rank))
                if env.rank == 0 and calls[0]:
                    env.check(args[0][0][1:] == (1,) and args[0][1] == dict(b=2), 'bcast-args', 'arguments %r' % (args[0][1],))
            else:
                t0 = time.monotonic()
                parallel.barrier()
                t1 = time.monotonic()
                ts = env.comm.allgather((t0, t1))
                env.check(max(a for a, _ in ts) <= min(b for _, b in ts), 'barrier', 'a process left the barrier before all had entered: %s' % (ts,))
            env.count('bcast_checked')
            env.sig('bcast', env.size, which, short(zero)[:20])
        env.check(parallel.get_rank() == env.rank and parallel.get_num_procs() == env.size and parallel.get_num_MPI_workers() == env.size
                  and bool(parallel.is_rank_zero()) == (env.rank == 0) and bool(parallel.is_distributed()) == (env.size > 1),
                  'parallel-info', 'rank/size information of parallel')
        env.check(parallel.get_num_nodes() == len(set(env.comm.allgather(parallel.get_node_ID()))), 'parallel-nodes', 'number of nodes')
