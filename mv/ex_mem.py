"""C03: how many vectors a process holds at once."""
import gc

import numpy as np
import modred as mr
from modred import parallel

from .core import make_rng
from .data import gauss, stable_discrete
from .ex_dec import Runner, bpod_data, dmd_data, pod_data, gen_W
from .ex_vs import pick
from .instr import MVec, MVecI, EvHandle, LIVE, Log, ip_for

ALLOW = 4


def nodes_of(env):
    """Numbers of distinct host names as decided by the runner (not asked from modred)."""
    import socket
    if env.size == 1:
        return 1
    return len(set(env.comm.allgather(socket.gethostname())))


def share_of(limit, nodes, procs):
    limit = 10000 if limit is None else limit
    return max(3, limit * nodes // procs)


class Watch(object):
    """Peak number of vectors alive in this process, above those alive before."""

    def __init__(self, env, share, what):
        self.env, self.share, self.what = env, share, what

    def __enter__(self):
        gc.collect()
        LIVE.reset()
        self.base = LIVE.now
        return self

    def __exit__(self, t, e, tb):
        if t is not None:
            return False
        env = self.env
        peak = LIVE.peak - self.base
        env.count('vectors_created', LIVE.created)
        env.count('operations_watched')
        op = self.what.split()[0]
        env.value = dict(env.value or {})
        env.value[op] = max(env.value.get(op, -99), peak - self.share)
        env.check(peak <= self.share + ALLOW, 'held-too-many:' + self.what.split()[0],
                  '%s: %d vectors held at once, share of this process is %d (+%d)' % (self.what, peak, self.share, ALLOW))
        gc.collect()
        env.check(LIVE.now <= self.base, 'leaked:' + self.what.split()[0],
                  '%s: %d vectors still referenced afterwards' % (self.what, LIVE.now - self.base))
        return False


def pick_limit(rng, size, nodes):
    per = -(-size // nodes)
    return int(pick(rng, [1, 2, 3, 3 * per, 3 * per, 3 * per + 1, 4 * per, 4 * per + per // 2, 5 * per, 6 * per + 1, 8 * per]))


def pick_many(rng, share, size):
    return int(pick(rng, [1, 2, share * size - 1, share * size, share * size + 1, 3 * share * size + 2, 30, 60, int(rng.integers(1, 50))]))


def ev(V, tag, log, make=MVec):
    return [EvHandle((tag, j), V[:, j], log, make=make) for j in range(V.shape[1])]


def mem_case(env, i):
    rng = make_rng(env.seed, 'mem', i, env.size)
    nodes = nodes_of(env)
    limit = pick_limit(rng, env.size, nodes)
    share = share_of(limit, nodes, env.size)
    kind = pick(rng, ['real', 'complex'])
    make = pick(rng, [MVec, MVecI])
    n = 3
    log = Log(env.rank)
    W = gen_W(rng, n, kind)
    nr, nc = pick_many(rng, share, env.size), pick_many(rng, share, env.size)
    desc = dict(np=env.size, nodes=nodes, limit=limit, share=share, rows=nr, cols=nc, kind=kind)
    vs = mr.VectorSpaceHandles(inner_product=ip_for(W), max_vecs_per_node=limit, verbosity=int(rng.integers(2)), print_interval=pick(rng, [0, 10]))
    X = ev(gauss(rng, (n, nr), kind), 'x', log, make)
    Y = ev(gauss(rng, (n, nc), kind), 'y', log, make)
    ops = [pick(rng, ['ip', 'symm', 'lin']) for _ in range(int(rng.integers(2, 5)))]
    env.sample(desc)
    for k, op in enumerate(ops):
        with env.case((i, k, op), dict(desc, op=op)):
            if op == 'ip':
                with Watch(env, share, 'inner-product array %d x %d' % (nr, nc)):
                    vs.compute_inner_product_array(X, Y)
            elif op == 'symm':
                with Watch(env, share, 'symmetric inner-product array of %d' % nr):
                    vs.compute_symm_inner_product_array(X)
            else:
                outs = [EvHandle(('s', j), None, log) for j in range(nc)]
                C = gauss(rng, (nr, nc), kind)
                with Watch(env, share, 'linear combination of %d to %d' % (nr, nc)):
                    vs.lin_combine(outs, X, C)
                env.count('put_events', sum(h.puts for h in outs))
            if max(nr, nc) > share:
                env.count('operations_beyond_limit')
                env.sig(env.size, nodes, limit, nr, nc, op)


def mem_dec_case(env, i, fam):
    rng = make_rng(env.seed, 'memdec', fam, i, env.size)
    nodes = nodes_of(env)
    limit = pick_limit(rng, env.size, nodes)
    share = share_of(limit, nodes, env.size)
    n, m = int(rng.integers(20, 40)), int(rng.integers(8, 20))
    if fam == 'POD':
        d = pod_data(rng, n=n, m=m)
    elif fam == 'BPOD':
        d = bpod_data(rng, steps=(int(rng.integers(5, 9)), int(rng.integers(5, 9))))
    else:
        d = dmd_data(rng, n=n, m=m, tls=fam == 'TLS')
    desc = dict(fam=fam, np=env.size, nodes=nodes, limit=limit, share=share, **d.desc)
    env.sample(desc)
    r = Runner(env, fam, d.W, rng, max_vecs=limit)
    r.load(d)
    with env.case((i, 'decomp'), desc):
        with Watch(env, share, 'decomp of ' + fam):
            r.decomp()
        env.sig(tuple(sorted(desc.items(), key=str)))
    for w in r.KINDS[fam]:
        with env.case((i, w), desc):
            with Watch(env, share, w + ' of ' + fam):
                r.modes(w)
    with env.case((i, 'coeffs'), desc):
        with Watch(env, share, 'coefficients of ' + fam):
            r.coeffs()


def mem_gal_case(env, i):
    rng = make_rng(env.seed, 'memgal', i, env.size)
    nodes = nodes_of(env)
    limit = pick_limit(rng, env.size, nodes)
    share = share_of(limit, nodes, env.size)
    k, p = int(rng.integers(1, 25)), int(rng.integers(1, 25))
    n = 30
    log = Log(env.rank)
    desc = dict(np=env.size, nodes=nodes, limit=limit, share=share, k=k, p=p)
    B = ev(gauss(rng, (n, k), 'real'), 'b', log)
    A = ev(gauss(rng, (n, k), 'real'), 'a', log)
    I = ev(gauss(rng, (n, p), 'real'), 'i', log)
    with env.case((i, 'gal'), desc):
        g = mr.LTIGalerkinProjectionHandles(ip_for(None), B, max_vecs_per_node=limit, verbosity=0, is_basis_orthonormal=bool(rng.integers(2)))
        with Watch(env, share, 'reduce_A'):
            g.reduce_A(A)
        with Watch(env, share, 'reduce_B'):
            g.reduce_B(I)
        env.sig('gal', env.size, nodes, limit, k, p)
