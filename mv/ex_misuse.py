"""C26: single misuses of every entry point; errors, and no output written."""
import numpy as np
import modred as mr
from modred import util, vectors

from .core import make_rng
from .data import gauss, markov, stable_discrete
from .ex_dec import make_data, gen_kind, Runner, trunc_opts
from .ex_vs import pick, any_ip
from .instr import EvHandle, Log, MVec


def ev(V, tag, log):
    return [EvHandle((tag, j), V[:, j], log, make=MVec) for j in range(V.shape[1])]


def outs_of(k, log, tag='out'):
    return [EvHandle((tag, j), None, log) for j in range(k)]


def other(rng, k, low=0, span=4):
    """A count different from k."""
    return int(pick(rng, [x for x in range(max(low, k - span), k + span) if x != k]))


class Table(object):
    """Runs misuses one after another and watches for puts."""

    def __init__(self, env, i, log):
        self.env, self.i, self.log = env, i, log

    def bad(self, name, types, fn):
        env = self.env
        before = sum(e[2] == 'put' for e in self.log.events)
        with env.case((self.i, name), dict(np=env.size, misuse=name)):
            env.raises(types, 'accepted:' + name.split(':')[0], fn, name)
            after = sum(e[2] == 'put' for e in self.log.events)
            env.check(after == before, 'put-despite:' + name.split(':')[0], '%s: %d outputs written' % (name, after - before))
            env.count('misuses_checked')
            env.sig(env.size, name)


def array_fns():
    return dict(POD=[mr.compute_POD_arrays_snaps_method, mr.compute_POD_arrays_direct_method], BPOD=[mr.compute_BPOD_arrays],
                DMD=[mr.compute_DMD_arrays_snaps_method, mr.compute_DMD_arrays_direct_method],
                TLS=[mr.compute_TLSqrDMD_arrays_snaps_method, mr.compute_TLSqrDMD_arrays_direct_method])


def parallel_case(env, i):
    """Array functions on several processes."""
    rng = make_rng(env.seed, 'misusepar', i, env.size)
    t = Table(env, i, Log(env.rank))
    for fam, fs in array_fns().items():
        d = make_data(rng, fam)
        for f in fs:
            if fam == 'POD':
                t.bad(f.__name__ + ' in parallel', RuntimeError, lambda: f(d.X, inner_product_weights=d.W))
            elif fam == 'BPOD':
                t.bad(f.__name__ + ' in parallel', RuntimeError, lambda: f(d.X, d.Y, inner_product_weights=d.W))
            else:
                t.bad(f.__name__ + ' in parallel', RuntimeError, lambda: f(d.V, adv_vecs=d.Y, inner_product_weights=d.W))
    B = gauss(rng, (6, 2), 'real')
    t.bad('LTIGalerkinProjectionArrays in parallel', RuntimeError, lambda: mr.LTIGalerkinProjectionArrays(B, is_basis_orthonormal=bool(rng.integers(2))))


def handles_case(env, i):
    """Handle-based classes, on any number of processes."""
    rng = make_rng(env.seed, 'misusehandles', i, env.size)
    kind = gen_kind(rng)
    log = Log(env.rank)
    t = Table(env, i, log)
    n, a, b = int(rng.integers(2, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    X, Y = ev(gauss(rng, (n, a), kind), 'x', log), ev(gauss(rng, (n, b), kind), 'y', log)
    none = mr.VectorSpaceHandles(max_vecs_per_node=10 * env.size, verbosity=0)
    t.bad('inner products without inner product', RuntimeError, lambda: none.compute_inner_product_array(X, Y))
    t.bad('symmetric inner products without inner product', RuntimeError, lambda: none.compute_symm_inner_product_array(X))
    vs = mr.VectorSpaceHandles(inner_product=any_ip(None), max_vecs_per_node=10 * env.size, verbosity=0)
    k = int(rng.integers(1, 5))
    O = outs_of(k, log)
    t.bad('lin_combine: coefficient rows', ValueError, lambda: vs.lin_combine(O, X, gauss(rng, (other(rng, a, 1), k), kind)))
    t.bad('lin_combine: coefficient columns', ValueError, lambda: vs.lin_combine(O, X, gauss(rng, (a, other(rng, k, 1)), kind)))
    m = other(rng, k, 1)
    t.bad('lin_combine: column indices', ValueError,
          lambda: vs.lin_combine(O, X, gauss(rng, (a, k + 4), kind), coeff_array_col_indices=list(range(m))))
    t.bad('lin_combine: column out of range', IndexError,
          lambda: vs.lin_combine(O, X, gauss(rng, (a, k), kind), coeff_array_col_indices=list(range(k - 1)) + [k]))
    # derivatives
    m = other(rng, a, 1)
    big = ev(gauss(rng, (n, m), kind), 'z', log)
    adv = ev(gauss(rng, (n, a), kind), 'adv', log)
    t.bad('compute_derivs_handles: advanced vectors', RuntimeError, lambda: mr.compute_derivs_handles(X, big, outs_of(a, log), .1))
    t.bad('compute_derivs_handles: outputs', RuntimeError, lambda: mr.compute_derivs_handles(X, adv, outs_of(m, log), .1))
    t.bad('compute_derivs_handles: vectors', RuntimeError, lambda: mr.compute_derivs_handles(big, adv, outs_of(a, log), .1))
    # Galerkin projection
    t.bad('LTIGalerkinProjectionHandles: adjoint basis', ValueError,
          lambda: mr.LTIGalerkinProjectionHandles(any_ip(None), X, adjoint_basis_vec_handles=big, max_vecs_per_node=10 * env.size, verbosity=0))
    for orth in (True, False):
        g = mr.LTIGalerkinProjectionHandles(None, X, is_basis_orthonormal=orth, max_vecs_per_node=10 * env.size, verbosity=0)
        t.bad('reduce_A without inner product', RuntimeError, lambda: g.reduce_A(adv))
        t.bad('reduce_B without inner product', RuntimeError, lambda: g.reduce_B(Y))
    for name in ('PODHandles', 'BPODHandles', 'DMDHandles', 'TLSqrDMDHandles'):
        o = getattr(mr, name)(max_vecs_per_node=10 * env.size, verbosity=0)
        if name == 'PODHandles':
            t.bad(name + ' without inner product', RuntimeError, lambda: o.compute_decomp(X))
        elif name == 'BPODHandles':
            t.bad(name + ' without inner product', RuntimeError, lambda: o.compute_decomp(X, Y))
        else:
            t.bad(name + ' without inner product', RuntimeError, lambda: o.compute_decomp(X, adv_vec_handles=adv))
    o = mr.DMDHandles(inner_product=any_ip(None), max_vecs_per_node=10 * env.size, verbosity=0)
    t.bad('DMDHandles: advanced vectors', ValueError, lambda: o.compute_decomp(X, adv_vec_handles=big))
    o = mr.TLSqrDMDHandles(inner_product=any_ip(None), max_vecs_per_node=10 * env.size, verbosity=0)
    t.bad('TLSqrDMDHandles: advanced vectors', ValueError, lambda: o.compute_decomp(X, adv_vec_handles=big))
    t.bad('TLSqrDMDHandles: put_correlation_array_eigvals', NotImplementedError, lambda: o.put_correlation_array_eigvals('x'))
    t.bad('TLSqrDMDHandles: put_correlation_array_eigvecs', NotImplementedError, lambda: o.put_correlation_array_eigvecs('x'))


def modes_case(env, i, fam):
    """Mode computation with wrong or missing handles."""
    rng = make_rng(env.seed, 'misusemodes', fam, i, env.size)
    d = make_data(rng, fam)
    log = Log(env.rank)
    r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [None, 3 * env.size, 10 * env.size]))
    r.log = log
    t = Table(env, i, log)
    with env.case((i, 'prepare'), dict(fam=fam, **d.desc)):
        r.load(d)
        r.decomp()
        ref = r.all_modes()
    k = r.count()
    o = r.obj
    for w in r.KINDS[fam]:
        f = getattr(o, 'compute_' + w)
        t.bad('%s %s: too many handles' % (fam, w), ValueError, lambda: f(list(range(k)), outs_of(k + 1 + int(rng.integers(3)), log)))
        if k > 1:
            t.bad('%s %s: too few handles' % (fam, w), ValueError, lambda: f(list(range(k)), outs_of(int(rng.integers(1, k)), log)))
        t.bad('%s %s: index out of range' % (fam, w), IndexError, lambda: f(list(range(k - 1)) + [k + int(rng.integers(3))], outs_of(k, log)))
    # afterwards the object is as good as before
    with env.case((i, 'after misuse'), dict(fam=fam, **d.desc)):
        now = r.all_modes()
        for w in ref:
            env.equal(now[w], ref[w], 'modes-after-misuse', '%s after rejected calls' % w)
    m = len(r.h)
    for w in r.KINDS[fam]:
        f = getattr(o, 'compute_' + w)
        n = d.X.shape[0] if fam in ('POD', 'BPOD') else d.V.shape[0]
        if fam in ('DMD', 'TLS'):
            rows = m - 1 if d.seq else m
            if w == 'exact_modes':
                wrong = other(rng, rows, 1)
            else:
                wrong = pick(rng, [x for x in range(1, rows + 5) if x not in (rows, rows + 1)] or [rows + 2])
        elif w == 'adjoint_modes':
            wrong = other(rng, len(r.ha), 1)
        else:
            wrong = other(rng, m, 1)
        H = ev(gauss(rng, (n, wrong), d.kind), 'wrong', log)
        t.bad('%s %s: wrong number of vectors' % (fam, w), ValueError, lambda: f(list(range(k)), outs_of(k, log), H))
    # decomposition restored without any vectors
    store = {}

    def put(a, dest):
        store[dest] = np.array(a)
    o = r.fresh_for_misuse(put) if hasattr(r, 'fresh_for_misuse') else None
    if o is None:
        cls = type(r.obj)
        o = cls(inner_product=any_ip(d.W), get_array=lambda s: None if s is None else saved[s], put_array=put,
                max_vecs_per_node=10 * env.size, verbosity=0)
        saved = {}
        names = dict(POD=['eigvals', 'eigvecs'], BPOD=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
                     DMD=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'],
                     TLS=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                          'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])[fam]
        for x in names:
            saved[x] = np.array(getattr(r.obj, x))
        o.get_decomp(*names)
    for w in r.KINDS[fam]:
        types = (dict(BPOD=util.UndefinedError).get(fam, Exception) if w != 'exact_modes' else ValueError)
        t.bad('%s %s: no vectors' % (fam, w), types, lambda: getattr(o, 'compute_' + w)(list(range(k)), outs_of(k, log)))


def serial_case(env, i):
    """Array functions, model reduction and utilities."""
    rng = make_rng(env.seed, 'misuseserial', i)
    t = Table(env, i, Log(0))
    kind = gen_kind(rng)
    n, m, p, q = int(rng.integers(2, 7)), int(rng.integers(2, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    G = lambda *s: gauss(rng, s, kind)
    # arrays
    for fam in ('DMD', 'TLS'):
        for f in array_fns()[fam]:
            for what, shp in (('columns', (n, other(rng, m, 1))), ('rows', (other(rng, n, 1), m))):
                t.bad('%s: advanced vectors with other %s' % (f.__name__, what), ValueError,
                      lambda: f(G(n, m), adv_vecs=G(*shp), inner_product_weights=pick(rng, [None, np.ones(n)])))
    W = np.ones(other(rng, n, 2))
    W = pick(rng, [W, np.diag(W), W.reshape(-1, 1)])
    for fam, fs in array_fns().items():
        for f in fs:
            if fam == 'BPOD':
                t.bad('%s: weights of the wrong size' % f.__name__, ValueError, lambda: f(G(n, m), G(n, m), inner_product_weights=W))
            else:
                t.bad('%s: weights of the wrong size' % f.__name__, ValueError, lambda: f(G(n, m), inner_product_weights=W))
            k = {'mode_indices': [m + n]}
            if fam == 'BPOD':
                k = pick(rng, [{'direct_mode_indices': [m + n]}, {'adjoint_mode_indices': [m + n]}])
                t.bad('%s: mode index out of range' % f.__name__, IndexError, lambda: f(G(n, m), G(n, m), **k))
            else:
                t.bad('%s: mode index out of range' % f.__name__, IndexError, lambda: f(G(n, m), **k))
    t.bad('compute_BPOD_arrays: vectors of different sizes', ValueError, lambda: mr.compute_BPOD_arrays(G(n, m), G(other(rng, n, 1), m)))
    for shp in ((n, 1), (n, m + 1), (1, m), (n + 1, m)):
        t.bad('compute_derivs_arrays: shapes', ValueError, lambda: mr.compute_derivs_arrays(G(n, m), G(*shp), .1))
    # spaces
    t.bad('VectorSpaceArrays: 3D weights', ValueError, lambda: mr.VectorSpaceArrays(weights=np.ones((2, 2, 2))))
    vs = mr.VectorSpaceArrays(weights=np.ones(other(rng, n, 1)))
    t.bad('VectorSpaceArrays: weights of the wrong size', ValueError, lambda: vs.compute_inner_product_array(G(n, m), G(n, p)))
    vs = mr.VectorSpaceArrays()
    t.bad('VectorSpaceArrays: vectors of different sizes', ValueError, lambda: vs.compute_inner_product_array(G(n, m), G(other(rng, n, 1), m)))
    t.bad('VectorSpaceArrays: coefficients of the wrong size', ValueError, lambda: vs.lin_combine(G(n, m), G(other(rng, m, 1), 2)))
    # Galerkin
    for shp in ((n, other(rng, m, 1)), (other(rng, n, 1), m)):
        t.bad('LTIGalerkinProjectionArrays: adjoint basis', ValueError, lambda: mr.LTIGalerkinProjectionArrays(G(n, m), adjoint_basis_vecs=G(*shp)))
    g = mr.LTIGalerkinProjectionArrays(G(n, 1), is_basis_orthonormal=bool(rng.integers(2)))
    t.bad('reduce_A: vectors of the wrong size', ValueError, lambda: g.reduce_A(G(other(rng, n, 1), 1)))
    t.bad('reduce_B: vectors of the wrong size', ValueError, lambda: g.reduce_B(G(other(rng, n, 1), p)))
    # signals and models
    N = int(rng.integers(20, 40))
    t.bad('OKID: sample counts', ValueError, lambda: mr.OKID(G(p, N), G(q, other(rng, N)), 3))
    t.bad('OKID: sample counts of 1D signals', ValueError, lambda: mr.OKID(G(N), G(other(rng, N)), 3))
    M = np.array(markov(*(stable_discrete(rng, 3, p, q, kind) + (N,))))
    puts = []
    e = mr.ERA(put_array=lambda a, d: puts.append(d), verbosity=0)
    t.bad('ERA: 4D Markov parameters', RuntimeError, lambda: e.compute_model(M[None], 2))
    for j in (1, 2, 3, 4, 5):
        t.bad('ERA: %d Markov parameters' % j, ValueError, lambda: mr.ERA(verbosity=0).compute_model(M[:j], 1))
        t.bad('compute_ERA_model: %d Markov parameters' % j, ValueError, lambda: mr.compute_ERA_model(M[:j], 1))
    mc = int(rng.integers(1, N))
    mo = N // 2 + 2 - mc + int(rng.integers(0, 4))
    if mo >= 1:
        how = pick(rng, ['call', 'constructor'])
        t.bad('ERA: too many parameters requested on ' + how, ValueError,
              lambda: (mr.ERA(verbosity=0).compute_model(M, 2, mc=mc, mo=mo) if how == 'call' else
                       mr.ERA(verbosity=0, mc=mc, mo=mo).compute_model(M, 2)))
    env.check(not puts, 'put-despite:ERA', 'put %s' % puts)
    times = np.arange(N) * .5
    t.bad('make_sampled_format: sizes', RuntimeError, lambda: mr.make_sampled_format(np.arange(other(rng, N, 2)) * .5, M))
    bent = times.copy()
    bent[int(rng.integers(2, N))] += pick(rng, [.1, -.2, 1e-3, 2e-5])
    t.bad('make_sampled_format: unequal spacing', ValueError, lambda: mr.make_sampled_format(bent, M))
    t.bad('make_sampled_format: unequal spacing beyond dt_tol', ValueError, lambda: mr.make_sampled_format(bent, M, dt_tol=1e-9))
    # text
    for shp in ((2, 2, 2), (1, 2, 1), (1, 1, 1, 3)):
        t.bad('save_array_text: %d dimensions' % len(shp), RuntimeError, lambda: util.save_array_text(G(*shp), 'never.txt'))
    import os
    env.check(not os.path.exists('never.txt'), 'put-despite:save_array_text', 'a file was written')
    util.save_array_text(np.ones((3, 3)), 'odd.txt')
    t.bad('load_array_text: odd number of columns', ValueError, lambda: util.load_array_text('odd.txt', is_complex=True))
    util.save_array_text(np.ones((3, 1)), 'one.txt')
    t.bad('load_signals: no signal', ValueError, lambda: util.load_signals('one.txt'))
    util.save_array_text(np.column_stack((np.arange(4.), np.ones((4, 2)))), 's1.txt')
    util.save_array_text(np.column_stack((np.arange(4.) + pick(rng, [1., .01]), np.ones((4, 2)))), 's2.txt')
    util.save_array_text(np.column_stack((np.arange(5.), np.ones((5, 2)))), 's3.txt')
    util.save_array_text(np.column_stack((np.arange(4.), np.ones(4))), 's4.txt')
    for f in ('s2.txt', 's3.txt', 's4.txt'):
        t.bad('load_multiple_signals: ' + f, ValueError, lambda: util.load_multiple_signals(list(rng.permutation(['s1.txt', f]))))
    t.bad('eig_biorthog: scale choice', ValueError, lambda: util.eig_biorthog(G(n, n), scale_choice=pick(rng, ['middle', 'lef', '', 'both'])))
    # inner products
    t.bad('InnerProductTrapz: no grid', ValueError, lambda: vectors.InnerProductTrapz())
    grid = np.linspace(0, 1, n)
    t.bad('InnerProductTrapz: grid is no array', TypeError, lambda: vectors.InnerProductTrapz(*pick(rng, [(grid.tolist(),), (grid, grid.tolist()), (grid.tolist(), grid)])))
    ip = vectors.InnerProductTrapz(grid, np.linspace(0, 2, m))
    good = G(n, m)
    for shp in ((n, m + 1), (n + 1, m), (n * m,), (n, m, 1), (1, m), (n, 1)):
        a, b = pick(rng, [(good, G(*shp)), (G(*shp), good), (G(*shp), G(*shp))])
        t.bad('InnerProductTrapz: shape', TypeError, lambda: ip(a, b))
    t.bad('inner_product_array_uniform: sizes', ValueError, lambda: vectors.inner_product_array_uniform(G(n), G(n + 1)))
    # base classes
    t.bad('Vector: constructor', NotImplementedError, lambda: mr.Vector())

    class Half(mr.VecHandle):
        pass
    t.bad('VecHandle: get', NotImplementedError, lambda: Half().get())
    t.bad('VecHandle: put', NotImplementedError, lambda: Half().put(np.ones(2)))
