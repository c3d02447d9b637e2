"""C31: how often vectors are retrieved, multiplied and sent, against the amounts
documented in modred.vectorspace (scaling formulas of the docstrings)."""
import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss
from .ex_dec import Runner, make_data
from .ex_mem import nodes_of, share_of, pick_limit
from .ex_vs import pick
from .instr import EvHandle, Log, MVec, ip_for

FREE = 4                        # per process and operation: timings, warm-up


class N(object):
    mul = sent = ip = 0


class CVec(MVec):
    """Counts scalar multiplications and journeys to other processes."""

    def __mul__(self, s):
        N.mul += 1
        return MVec.__mul__(self, s)

    __rmul__ = __mul__

    def __reduce__(self):
        N.sent += 1
        return (CVec, (self.data,))


def up(a, b):
    return -(-a // b)


class Budget(object):
    def __init__(self, p, share):
        self.p, self.m = p, max(1, share - 2)
        self.tot = dict(gets=0, ips=0, muls=0, sent=0)
        self.one = dict(gets=0, ips=0, muls=0)

    def add(self, tot, one):
        for k, v in tot.items():
            self.tot[k] += v + (FREE * self.p if k != 'sent' else 0)
        for k, v in one.items():
            self.one[k] += v + FREE
        return self

    def ip(self, r, c):
        p = self.p
        a, b = min(r, c), max(r, c)
        chunks = up(up(a, p), self.m)
        return self.add(dict(gets=a + b * chunks, ips=a * b, sent=(p - 1) * b * chunks),
                        dict(gets=up(a, p) + up(b, p) * chunks, ips=up(a, p) * b))

    def symm(self, n):
        """Half of the pairs and the diagonal; with an even number of processes
        the chunks of opposite processes are computed by both."""
        p, s = self.p, self.m * self.p
        rect = sum(max(0, n - e) for e in range(s, n + s, s))
        twice = (n + p) * up(n, p) // 2 if p > 1 else 0
        return self.add(dict(gets=n + rect, ips=n * (n + 1) // 2 + twice, sent=(p - 1) * rect + n * up(p - 1, 2)),
                        dict(gets=up(n, p) + up(rect, p) + up(n, s), ips=up(n, p) * n))

    def lin(self, b, s):
        p = self.p
        chunks = up(up(s, p), self.m)
        return self.add(dict(gets=b * chunks, muls=b * s, sent=(p - 1) * b * chunks), dict(gets=up(b, p) * chunks, muls=b * up(s, p)))


class Meter(object):
    """Counts what happens during one operation and compares with the budget."""

    def __init__(self, env, log, budget, what):
        self.env, self.log, self.b, self.what = env, log, budget, what

    def __enter__(self):
        self.g0, self.n0 = len(self.log.events), (N.ip, N.mul, N.sent)

    def __exit__(self, t, e, tb):
        if t is not None:
            return False
        env, op = self.env, self.what.split()[0]
        me = dict(gets=sum(1 for x in self.log.events[self.g0:] if x[2] == 'get'), ips=N.ip - self.n0[0], muls=N.mul - self.n0[1], sent=N.sent - self.n0[2])
        every = env.comm.allgather(me) if env.size > 1 else [me]
        for k, lim in self.b.tot.items():
            got = sum(x[k] for x in every)
            env.check(got <= lim, 'too-many-%s:%s' % (k, op), '%s: %d %s in total, at most %d are needed' % (self.what, got, NAMES[k], lim))
            if env.rank == 0:
                env.count(k + '_seen', got)
        for k, lim in self.b.one.items():
            env.check(me[k] <= lim, 'too-many-%s-on-one:%s' % (k, op), '%s: %d %s on process %d, its part is at most %d' % (self.what, me[k], NAMES[k], env.rank, lim))
        env.count('operations_metered')
        return False


NAMES = dict(gets='retrievals', ips='inner products', muls='scalar multiplications', sent='vectors sent')


def counting(W):
    ip = ip_for(W)

    def f(a, b):
        N.ip += 1
        return ip(a, b)
    return f


def ev(rng, n, k, tag, log, kind='real'):
    V = gauss(rng, (n, k), kind)
    return [EvHandle((tag, j), V[:, j], log, make=CVec) for j in range(k)]


def vs_case(env, i):
    rng = make_rng(env.seed, 'cost', i, env.size)
    p, nodes = env.size, nodes_of(env)
    limit = int(pick(rng, [pick_limit(rng, p, nodes), pick_limit(rng, p, nodes), 30 * p, 1000]))
    share = share_of(limit, nodes, p)
    size = lambda: int(pick(rng, [1, 2, p, p + 1, share * p, share * p + 1, 2 * share * p + 3, int(rng.integers(1, 60))]))
    r, c = min(size(), 120), min(size(), 120)
    desc = dict(np=p, nodes=nodes, limit=limit, share=share, rows=r, cols=c)
    env.sample(desc)
    log = Log(env.rank)
    vs = mr.VectorSpaceHandles(counting(None), max_vecs_per_node=limit, verbosity=0)
    X, Y = ev(rng, 3, r, 'x', log), ev(rng, 3, c, 'y', log)
    with env.case((i, 'ip'), desc), Meter(env, log, Budget(p, share).ip(r, c), 'inner-product-array %d x %d, share %d' % (r, c, share)):
        vs.compute_inner_product_array(X, Y)
    with env.case((i, 'symm'), desc), Meter(env, log, Budget(p, share).symm(r), 'symmetric-inner-product-array %d, share %d' % (r, share)):
        vs.compute_symm_inner_product_array(X)
    with env.case((i, 'lin'), desc):
        outs = [EvHandle(('s', j), None, log) for j in range(c)]
        C = gauss(rng, (r, c))
        with Meter(env, log, Budget(p, share).lin(r, c), 'linear-combination %d to %d, share %d' % (r, c, share)):
            vs.lin_combine(outs, X, C)
    with env.case((i, 'lin-sel'), desc):
        idx = [int(x) for x in rng.permutation(c)[:int(rng.integers(1, c + 1))]]
        outs = [EvHandle(('s', j), None, log) for j in idx]
        with Meter(env, log, Budget(p, share).lin(r, len(idx)), 'linear-combination-selected %d to %d of %d, share %d' % (r, len(idx), c, share)):
            vs.lin_combine(outs, X, C, coeff_array_col_indices=idx)
    env.sig(p, nodes, share, r, c)


def dec_case(env, i, fam):
    rng = make_rng(env.seed, 'cost-dec', fam, i, env.size)
    p, nodes = env.size, nodes_of(env)
    limit = int(pick(rng, [pick_limit(rng, p, nodes), 1000]))
    share = share_of(limit, nodes, p)
    d = make_data(rng, fam)
    desc = dict(np=p, fam=fam, limit=limit, share=share, **d.desc)
    env.sample(desc)
    r = Runner(env, fam, d.W, rng, max_vecs=limit)
    r.obj.vec_space.inner_product = counting(d.W)
    log = r.log
    mk = lambda V, tag: [EvHandle((tag, j), V[:, j], log, make=CVec) for j in range(V.shape[1])]
    if fam == 'POD':
        r.d, r.h = d, mk(d.X, 'x')
    elif fam == 'BPOD':
        r.d, r.h, r.ha = d, mk(d.X, 'x'), mk(d.Y, 'y')
    else:
        r.d, r.h, r.ha = d, mk(d.V, 'x'), None if d.seq else mk(d.Y, 'y')
    B = lambda: Budget(p, share)
    n = len(r.h)
    none = lambda: Budget(p, share)
    if fam == 'POD':
        need = B().symm(n)
    elif fam == 'BPOD':
        need = B().ip(len(r.ha), d.p).ip(d.q, n)
    elif d.seq:
        need = B().symm(n)
    elif fam == 'DMD':
        need = B().symm(n).ip(n, n)
    else:
        need = B().symm(n).symm(n).ip(n, n)
    with env.case((i, 'decomp'), desc), Meter(env, log, need, 'decomposition-of-%s %d vectors, share %d' % (fam, n, share)):
        r.decomp()
    with env.case((i, 'again'), desc), Meter(env, log, none(), 'eigendecomposition-again-of-%s' % fam):
        o = r.obj
        if fam == 'BPOD':
            o.compute_SVD()
        else:
            o.compute_eigendecomp()
        r.coeffs()
    k = r.count()
    for w in r.KINDS[fam]:
        nb = len(r.ha) if (fam, w) == ('BPOD', 'adjoint_modes') else n - (fam in ('DMD', 'TLS') and bool(d.seq))
        with env.case((i, w), desc):
            idx = [int(x) for x in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
            outs = [EvHandle(('m', j), None, log) for j in idx]
            with Meter(env, log, B().lin(nb, len(idx)), '%s-of-%s %d of %d vectors, share %d' % (w, fam, len(idx), nb, share)):
                getattr(o, 'compute_' + w)(idx, outs)
    env.sig(fam, p, share, n, k)


def gal_case(env, i):
    rng = make_rng(env.seed, 'cost-gal', i, env.size)
    p, nodes = env.size, nodes_of(env)
    limit = int(pick(rng, [pick_limit(rng, p, nodes), 1000]))
    share = share_of(limit, nodes, p)
    k, q = int(rng.integers(1, 14)), int(rng.integers(1, 8))
    adj, orth = bool(rng.integers(2)), bool(rng.integers(2))
    log = Log(env.rank)
    desc = dict(np=p, k=k, q=q, adj=adj, orth=orth, share=share)
    b, a, e, j = ev(rng, 20, k, 'b', log), ev(rng, 20, k, 'a', log), ev(rng, 20, q, 'e', log), ev(rng, 20, k, 'j', log)
    with env.case(i, desc):
        g = mr.LTIGalerkinProjectionHandles(counting(None), b, adjoint_basis_vec_handles=j if adj else None, is_basis_orthonormal=orth,
                                            max_vecs_per_node=limit, verbosity=0)
        for f, hs in ((g.reduce_A, a), (g.reduce_B, e)):
            need = Budget(p, share).ip(k, len(hs))
            if not orth:
                need = need.ip(k, k) if adj else need.symm(k)
            with Meter(env, log, need, 'projection %d on %d, share %d' % (len(hs), k, share)):
                f(hs)
    with env.case((i, 'derivs'), desc):
        outs = [EvHandle(('d', x), None, log) for x in range(k)]
        need = Budget(p, share).add(dict(gets=2 * k, muls=k), dict(gets=2 * up(k, p), muls=up(k, p)))
        with Meter(env, log, need, 'derivatives of %d' % k):
            mr.compute_derivs_handles(b, a, outs, .1)
    env.sig('gal', p, share, k, q, adj, orth)
