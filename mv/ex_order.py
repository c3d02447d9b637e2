"""C30: what has happened, on all processes, when a call returns on one of them."""
import os
import time

import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss
from .ex_dec import Runner, make_data, collect
from .ex_vs import pick
from .instr import EvHandle, Log, MVec, ip_for, raw


class Slow(object):
    """Sleeps before the actual writing, by a plan of the case."""

    def __init__(self, rng, env, writers):
        self.profile = pick(rng, ['one', 'one', 'ramp', 'reverse', 'random'])
        self.who = int(rng.integers(max(1, min(writers, env.size))))
        self.rank, self.size = env.rank, env.size
        self.r = np.random.default_rng([int(rng.integers(1 << 30)), env.rank])

    def __call__(self):
        t = dict(one=.012 * (self.rank == self.who), ramp=.005 * self.rank, reverse=.005 * (self.size - 1 - self.rank),
                 random=float(self.r.choice([0, .001, .012])))[self.profile]
        if t:
            time.sleep(t)


class FileOut(object):
    """Output file that all processes can read."""

    def __init__(self, name, log, slow):
        self.name, self.log, self.slow = name, log, slow

    def put(self, vec):
        self.slow()
        np.save(self.name, raw(vec))
        self.log.add('put', self.name)

    def get(self):
        return MVec(np.load(self.name))


class RealOut(FileOut):
    """modred's own file handles, slowed down."""

    def __init__(self, name, log, slow, kind, cplx):
        FileOut.__init__(self, name, log, slow)
        self.inner = mr.VecHandlePickle(name) if kind == 'pickle' else mr.VecHandleArrayText(name, is_complex=cplx)

    def put(self, vec):
        self.slow()
        self.inner.put(np.array(raw(vec)))
        self.log.add('put', self.name)

    def get(self):
        return MVec(self.inner.get())


def returned(env, log, read, what):
    """To be called as soon as a call has returned: time of return, and what
    this process can read right now; then everything is compared."""
    t = time.monotonic()
    seen = {}
    for name, f, want in read:
        try:
            got = np.asarray(f())
            ok = want is None or (got.size == np.size(want) and np.allclose(np.ravel(got), np.ravel(want), rtol=1e-9, atol=1e-9))
            seen[name] = None if ok else 'has other content: %s' % (np.ravel(got)[:4],)
        except Exception as e:
            seen[name] = '%s: %s' % (type(e).__name__, e)
    puts = [(e[0], e[1], e[3]) for e in log.events if e[2] == 'put']
    del log.events[:]
    every = env.comm.allgather((t, puts, seen)) if env.size > 1 else [(t, puts, seen)]
    first = min(e[0] for e in every)
    who = [e[0] for e in every].index(first)
    late = [(p, r) for e in every for p in e[1] for r in [p[0] - first] if r > 0]
    op = what.split()[0]
    env.check(not late, 'returned-before-written:' + op, '%s: process %d returned %.1f ms before process %s had written %s' % (
        what, who, 1e3 * late[0][1] if late else 0, late[0][0][1] if late else '', late[0][0][2] if late else ''))
    bad = [(r, n, m) for r, e in enumerate(every) for n, m in e[2].items() if m is not None]
    env.check(not bad, 'unreadable-on-return:' + op, '%s: when it returned on process %s, output %s was not readable there (%s)' % (
        (what,) + (bad[0] if bad else ('', '', ''))))
    n = sum(len(e[1]) for e in every)
    env.count('puts_ordered', n if env.rank == 0 else 0)
    env.count('reads_on_return', len(read))
    env.count('returns_compared')
    if n:
        env.sig(op, env.size, n, tuple(sorted(set(p[1] for e in every for p in e[1]))))
    if env.size > 1:
        env.comm.Barrier()


def files(env, rng, k, log, slow, tag, cplx=None):
    kind = pick(rng, ['npy', 'npy', 'pickle'] + ['text'] * (cplx is not None))
    if kind == 'npy':
        return [FileOut('%s%d.npy' % (tag, j), log, slow) for j in range(k)]
    return [RealOut('%s%d.out' % (tag, j), log, slow, kind, cplx) for j in range(k)]


def lin_case(env, i):
    rng = make_rng(env.seed, 'order-lin', i, env.size)
    p = env.size
    nb, ns = int(pick(rng, [1, 2, p, p + 1, 2 * p])), int(pick(rng, [1, 2, p - 1 or 1, p, p + 1, 3 * p]))
    kind, limit = pick(rng, ['real', 'complex']), int(pick(rng, [3 * p, 4 * p, 100]))
    slow = Slow(rng, env, ns)
    log = Log(env.rank)
    X, C = gauss(rng, (5, nb), kind), gauss(rng, (nb, ns), kind)
    want = X.dot(C)
    desc = dict(np=p, bases=nb, sums=ns, limit=limit, slow=slow.profile)
    env.sample(desc)
    vs = mr.VectorSpaceHandles(ip_for(None), max_vecs_per_node=limit, verbosity=0)
    with env.case((i, 'lin'), desc):
        outs = files(env, rng, ns, log, slow, 'lin', kind == 'complex')
        vs.lin_combine(outs, [EvHandle(('b', j), X[:, j], log) for j in range(nb)], C)
        returned(env, log, [(h.name, lambda h=h: h.get().data, want[:, j]) for j, h in enumerate(outs)], 'lin_combine of %d outputs' % ns)
    with env.case((i, 'derivs'), desc):
        outs = files(env, rng, ns, log, slow, 'der', kind == 'complex')
        V, A = gauss(rng, (4, ns), kind), gauss(rng, (4, ns), kind)
        mr.compute_derivs_handles([EvHandle(('v', j), V[:, j], log) for j in range(ns)],
                                  [EvHandle(('a', j), A[:, j], log) for j in range(ns)], outs, .5)
        want = (A - V) / .5
        returned(env, log, [(h.name, lambda h=h: h.get().data, want[:, j]) for j, h in enumerate(outs)], 'compute_derivs_handles of %d outputs' % ns)


PUTS = dict(POD=['eigvals', 'eigvecs', 'correlation_array', 'proj_coeffs'],
            BPOD=['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'direct_proj_coeffs', 'adjoint_proj_coeffs'],
            DMD=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs',
                 'correlation_array', 'cross_correlation_array', 'spectral_coeffs'],
            TLS=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs', 'correlation_array', 'cross_correlation_array',
                 'adv_correlation_array', 'sum_correlation_array', 'proj_correlation_array', 'spectral_coeffs'])


def writer(log, slow):
    def put(a, dest):
        slow()
        np.save(dest, a)
        log.add('put', dest)
    return put


def dec_case(env, i, fam):
    rng = make_rng(env.seed, 'order-dec', fam, i, env.size)
    d = make_data(rng, fam)
    slow = Slow(rng, env, 1)
    log = Log(env.rank)
    desc = dict(np=env.size, fam=fam, slow=slow.profile, **d.desc)
    env.sample(desc)
    with env.case((i, 'modes'), desc):
        r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [3, 100]), put_array=writer(log, slow), get_array=np.load)
        r.load(d)
        r.decomp()
        r.coeffs()
        o = r.obj
        mslow = Slow(rng, env, r.count())
        for w in r.KINDS[fam]:
            outs = files(env, rng, r.count(), log, mslow, w)
            getattr(o, 'compute_' + w)(list(range(r.count())), outs)
            returned(env, log, [(h.name, lambda h=h: h.get().data, None) for h in outs], 'compute_%s of %s, %d modes' % (w, fam, r.count()))
    with env.case((i, 'put'), desc):
        names = list(PUTS[fam])
        rng.shuffle(names)
        for name in names:
            f = 'one_%s.npy' % name
            getattr(o, 'put_' + name)(f)
            returned(env, log, [(f, lambda f=f: np.load(f), getattr(o, name))], 'put_%s of %s' % (name, fam))
        if fam in ('DMD', 'TLS'):
            o.put_proj_coeffs('pc.npy', 'apc.npy')
            returned(env, log, [('pc.npy', lambda: np.load('pc.npy'), o.proj_coeffs), ('apc.npy', lambda: np.load('apc.npy'), o.adv_proj_coeffs)],
                     'put_proj_coeffs of %s' % fam)
        k = dict(POD=2, BPOD=3, DMD=5, TLS=7)[fam]
        fs = ['all%d.npy' % j for j in range(k)]
        o.put_decomp(*fs)
        returned(env, log, [(f, lambda f=f: np.load(f), None) for f in fs], 'put_decomp of %s' % fam)


def gal_case(env, i):
    rng = make_rng(env.seed, 'order-gal', i, env.size)
    slow = Slow(rng, env, 1)
    log = Log(env.rank)
    k, p = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    desc = dict(np=env.size, k=k, p=p, slow=slow.profile)
    mk = lambda m, t: [EvHandle((t, j), v, log) for j, v in enumerate(gauss(rng, (m, 6)))]
    with env.case(i, desc):
        g = mr.LTIGalerkinProjectionHandles(ip_for(None), mk(k, 'b'), put_array=writer(log, slow), verbosity=0, max_vecs_per_node=3 * env.size)
        g.compute_model(mk(k, 'a'), mk(p, 'i'), gauss(rng, (2, k)))
        for x in 'ABC':
            f = x + '.npy'
            getattr(g, 'put_%s_reduced' % x)(f)
            returned(env, log, [(f, lambda f=f: np.load(f), getattr(g, x + '_reduced'))], 'put_%s_reduced' % x)
        g.put_model('mA.npy', 'mB.npy', 'mC.npy')
        returned(env, log, [('m%s.npy' % x, lambda x=x: np.load('m%s.npy' % x), getattr(g, x + '_reduced')) for x in 'ABC'], 'put_model')
