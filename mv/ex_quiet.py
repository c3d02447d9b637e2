"""C27: what operations write to standard output and standard error."""
import os
import sys
import warnings

import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss, markov, stable_discrete
from .ex_dec import gen_kind, gen_W, make_data, trunc_opts, Runner, collect
from .ex_dec2 import same_on_all
from .ex_vs import pick, any_ip, build_handles
from .instr import EvHandle, Log, MVec


class captured(object):
    """File descriptors 1 and 2 (and Python's streams on them) go to files."""
    serial = 0

    def __init__(self, env):
        captured.serial += 1
        self.paths = [os.path.join(env.scratch, 'std%d.%d.%d' % (fd, captured.serial, env.rank)) for fd in (1, 2)]

    def __enter__(self):
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter('always', UserWarning)
        sys.stdout.flush()
        sys.stderr.flush()
        self.old = [os.dup(1), os.dup(2)]
        for fd, p in zip((1, 2), self.paths):
            f = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, fd)
            os.close(f)
        return self

    def __exit__(self, *exc):
        self.warn.__exit__(*exc)
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, o in zip((1, 2), self.old):
            os.dup2(o, fd)
            os.close(o)
        self.text = []
        for p in self.paths:
            with open(p, 'rb') as f:
                self.text.append(f.read())
            os.unlink(p)
        return False

    @property
    def size(self):
        return sum(len(t) for t in self.text)

    def short(self):
        return repr(b' | '.join(self.text)[:150])


def judge(env, what, verbosity, cap):
    env.count('operations_captured')
    env.count('bytes_written', cap.size)
    if verbosity == 0:
        env.check(cap.size == 0, 'noise:' + what, '%s with verbosity 0 wrote %s on process %d' % (what, cap.short(), env.rank))
        env.count('silent_operations')
    else:
        if env.rank > 0:
            env.check(cap.size == 0, 'rank-noise:' + what, '%s wrote %s on process %d' % (what, cap.short(), env.rank))
            env.count('other_ranks_watched')
        else:
            env.count('verbose_operations_that_wrote', int(cap.size > 0))


def same(env, what, a, b):
    """Verbosity does not change results (bitwise)."""
    if a is None or b is None:
        env.check(a is None and b is None, 'result:' + what, '%s: %s and %s' % (what, a, b))
        return
    if isinstance(a, dict):
        for k in a:
            same(env, what + ' ' + k, a[k], b[k])
        return
    if isinstance(a, (list, tuple)):
        for j, (x, y) in enumerate(zip(a, b)):
            same(env, '%s %d' % (what, j), x, y)
        return
    env.equal(a, b, 'result:' + what.split()[0], what)
    env.count('results_compared')


def vs_ops(env, seed, verbosity):
    """Every VectorSpaceHandles operation, from the same random state."""
    rng = make_rng(*seed)
    kind = gen_kind(rng)
    n, a, b = int(rng.integers(1, 5)), int(rng.integers(1, 14)), int(rng.integers(1, 14))
    limit = pick(rng, [None, 1, 3, 3 * env.size, 3 * env.size + 2, 4 * env.size, 1000])
    interval = pick(rng, [0, 0, 0, 1e-9, 10, -1])
    log = Log(env.rank)
    Xd, Yd = gauss(rng, (n, a), kind), gauss(rng, (n, b), kind)
    X, Y = [[EvHandle((t, j), V[:, j], log) for j in range(V.shape[1])] for t, V in (('x', Xd), ('y', Yd))]
    desc = dict(np=env.size, kind=kind, n=n, a=a, b=b, limit=limit, interval=interval, verbosity=verbosity)
    env.sample(desc)
    out = {}
    order = [pick(rng, ['ip', 'symm', 'lin', 'sanity', 'derivs']) for _ in range(4)]
    with env.case((seed[-1], verbosity), desc):
        with captured(env) as c:
            if rng.random() < .5:
                vs = mr.VectorSpaceHandles(inner_product=any_ip(gen_W(rng, n, kind)), max_vecs_per_node=limit, verbosity=verbosity, print_interval=interval)
            else:
                vs = mr.VectorSpaceHandles(any_ip(None), max_vecs_per_node=limit, verbosity=verbosity)
                vs.print_interval = interval
        judge(env, 'VectorSpaceHandles', verbosity, c)
        for step, op in enumerate(order):
            cols = int(rng.integers(1, 9))
            co = gauss(rng, (a, cols), kind)
            k = min(a, b)
            with captured(env) as c:
                if op == 'ip':
                    res = vs.compute_inner_product_array(X, Y)
                elif op == 'symm':
                    res = vs.compute_symm_inner_product_array(X)
                elif op == 'lin':
                    outs = [EvHandle(('o', j), None, log) for j in range(cols)]
                    vs.lin_combine(outs, X, co)
                elif op == 'sanity':
                    vs.sanity_check(X[0])
                    res = None
                else:
                    outs = [EvHandle(('d', j), None, log) for j in range(k)]
                    mr.compute_derivs_handles(X[:k], Y[:k], outs, .3)
            judge(env, dict(ip='compute_inner_product_array', symm='compute_symm_inner_product_array', lin='lin_combine',
                            sanity='sanity_check', derivs='compute_derivs_handles')[op], 0 if op == 'derivs' else verbosity, c)
            if op in ('lin', 'derivs'):
                res = collect(env, outs)
            out['%s-%d' % (op, step)] = res
        env.sig(tuple(sorted(desc.items(), key=str)), tuple(order))
    return out


def pair_run(env, fn, seed):
    a = fn(env, seed, 0)
    b = fn(env, seed, 1)
    with env.case((seed[-1], 'compare'), None):
        for k in a:
            same(env, k, a[k], b[k])


def vs_case(env, i):
    pair_run(env, vs_ops, (env.seed, 'quietvs', env.size, i))


def dec_ops(env, seed, verbosity):
    rng = make_rng(*seed)
    fam = seed[1][5:]
    d = make_data(rng, fam)
    limit = pick(rng, [None, 1, 3 * env.size, 4 * env.size + 1, 200])
    desc = dict(fam=fam, np=env.size, limit=limit, verbosity=verbosity, **d.desc)
    env.sample(desc)
    out = {}
    with env.case((seed[-1], fam, verbosity), desc):
        with captured(env) as c:
            r = Runner(env, fam, d.W, rng, max_vecs=limit, verbosity=verbosity)
        judge(env, fam + '-init', verbosity, c)
        vs = getattr(r.obj, 'vec_space', None)
        if vs is not None and hasattr(vs, 'print_interval'):
            vs.print_interval = pick(rng, [0, 0, 1e-9, 10])
        r.load(d)
        with captured(env) as c:
            out['decomp'] = r.decomp()
        judge(env, fam + '-compute_decomp', verbosity, c)
        for w in r.KINDS[fam]:
            k = r.count()
            outs = r.outs(k)
            with captured(env) as c:
                getattr(r.obj, 'compute_' + w)(list(range(k)), outs)
            judge(env, fam + '-compute_' + w, verbosity, c)
            out[w] = collect(env, outs)
        with captured(env) as c:
            out['coeffs'] = r.coeffs()
        judge(env, fam + '-coefficients', verbosity, c)
        out['arrays'] = r.arrays()
        o = r.obj
        dests = []

        def put(a, dest):
            dests.append(dest)
        o.put_array = put
        o.get_array = lambda x: np.array(x)
        with captured(env) as c:
            if fam == 'POD':
                o.put_decomp('a', 'b')
                o.put_correlation_array('c')
            elif fam == 'BPOD':
                o.put_decomp('a', 'b', 'c')
                o.put_Hankel_array('d')
            elif fam == 'DMD':
                o.put_decomp('a', 'b', 'c', 'd', 'e')
                o.put_correlation_array('f')
            else:
                o.put_decomp('a', 'b', 'c', 'd', 'e', 'f', 'g')
                o.put_correlation_array('h')
            if rng.random() < .5:
                o.sanity_check(r.h[0])
        judge(env, fam + '-put', verbosity, c)
        with captured(env) as c:
            src = [np.array(x) for x in out['decomp'].values()]
            o.get_decomp(*src)
        judge(env, fam + '-get', verbosity, c)
        # nothing above the tolerance
        with captured(env) as c:
            none = r.decomp(atol=1e60)
        judge(env, fam + '-compute_decomp', verbosity, c)
        out['nothing'] = none
        env.check(all(0 in np.shape(x) for x in none.values() if np.ndim(x) == 1), 'kept', 'values kept above all: %s' % (none,))
        env.sig(tuple(sorted(desc.items(), key=str)))
    return out


def dec_case(env, i, fam):
    pair_run(env, dec_ops, (env.seed, 'quiet' + fam, env.size, i))


def gal_ops(env, seed, verbosity):
    rng = make_rng(*seed)
    kind = gen_kind(rng)
    n, k, p, q = int(rng.integers(3, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    log = Log(env.rank)
    mk = lambda c, t: [EvHandle((t, j), v, log) for j, v in enumerate(gauss(rng, (n, c), kind).T)]
    P, Q, A, B = mk(k, 'p'), mk(k, 'q'), mk(k, 'a'), mk(p, 'b')
    C = [gauss(rng, q, kind) for _ in range(k)]
    adj = pick(rng, [None, 'yes'])
    limit = pick(rng, [None, 1, 3 * env.size, 100])
    desc = dict(np=env.size, n=n, k=k, p=p, q=q, kind=kind, limit=limit, adjoint=adj, verbosity=verbosity)
    env.sample(desc)
    with env.case((seed[-1], 'gal', verbosity), desc):
        with captured(env) as c:
            g = mr.LTIGalerkinProjectionHandles(
                any_ip(None), P, adjoint_basis_vec_handles=Q if adj else None, is_basis_orthonormal=bool(rng.integers(2)),
                max_vecs_per_node=limit, verbosity=verbosity, put_array=lambda a, d: None)
            vs = getattr(g, "vec_space", None)
            if hasattr(vs, "print_interval"):
                vs.print_interval = 0
        judge(env, 'galerkin-init', verbosity, c)
        with captured(env) as c:
            res = g.compute_model(A, B, C)
        judge(env, 'galerkin-compute_model', verbosity, c)
        with captured(env) as c:
            g.put_model('a', 'b', 'c')
        judge(env, 'galerkin-put', verbosity, c)
        env.sig(tuple(sorted(desc.items(), key=str)))
    return dict(model=res)


def gal_case(env, i):
    pair_run(env, gal_ops, (env.seed, 'quietgal', env.size, i))


def era_ops(env, seed, verbosity):
    rng = make_rng(*seed)
    kind = gen_kind(rng)
    n, p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    A, B, C = stable_discrete(rng, n, p, q, kind)
    unstable = bool(rng.integers(2))
    if unstable:
        A = A * 1.5 / np.abs(np.linalg.eigvals(A)).max()
    M = markov(A, B, C, 4 * n + 6)
    desc = dict(np=env.size, n=n, p=p, q=q, kind=kind, unstable=unstable, verbosity=verbosity)
    env.sample(desc)
    with env.case((seed[-1], 'era', verbosity), desc):
        with captured(env) as c:
            e = mr.ERA(put_array=lambda a, d: None, verbosity=verbosity)
            res = e.compute_model(M, n)
        judge(env, 'ERA.compute_model', verbosity, c)
        with captured(env) as c:
            e.put_model('a', 'b', 'c')
            e.put_decomp('a', 'b', 'c', 'd', 'e')
            e.put_sing_vals('s')
        judge(env, 'ERA.put', verbosity, c)
        env.sig(tuple(sorted(desc.items(), key=str)))
    return dict(model=res)


def era_case(env, i):
    pair_run(env, era_ops, (env.seed, 'quietera', env.size, i))
    # functions without a verbosity parameter
    rng = make_rng(env.seed, 'quietfun', env.size, i)
    if env.size == 1:
        fam = pick(rng, ['POD', 'BPOD', 'DMD', 'TLS'])
        d = make_data(rng, fam)
        from .ex_dec import array_impls, run_array
        with env.case((i, 'arrays', fam), dict(fam=fam, **d.desc)):
            for impl in array_impls(fam):
                with captured(env) as c:
                    run_array(fam, d, impl)
                judge(env, 'array-' + fam, 0, c)
