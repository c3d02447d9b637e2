"""C07: images of everything the user hands over, before and after each call."""
import contextlib
import os

import numpy as np
import modred as mr
from modred import parallel, util, vectors

from .core import make_rng
from .data import gauss, markov, spd, stable_discrete
from .ex_dec import gen_kind, gen_W, make_data, trunc_opts, Runner
from .ex_vs import UserVec, pick, any_ip
from .instr import EvHandle, LoggedHandle, Log, MVec, MVecI


def image(o, depth=0):
    """Bitwise image of an argument, containers and vectors included."""
    if isinstance(o, np.ndarray):
        return ('array', o.dtype.str, o.shape, o.strides, o.flags.writeable, o.tobytes() if o.dtype != object else tuple(image(x) for x in o.ravel()))
    if isinstance(o, MVec):
        return (type(o).__name__, image(o.data))
    if isinstance(o, UserVec):
        return ('UserVec', image(o.arr))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, len(o), tuple(image(x, depth + 1) for x in o))
    if isinstance(o, dict):
        return ('dict', tuple((repr(k), image(v, depth + 1)) for k, v in sorted(o.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(o, EvHandle):
        return ('EvHandle', id(o), o.puts, image(o.data))
    if isinstance(o, LoggedHandle):
        return ('LoggedHandle', id(o), o.puts, image(o.inner.vec) if isinstance(o.inner, mr.VecHandleInMemory) else None)
    if isinstance(o, mr.VecHandleInMemory):
        return ('VecHandleInMemory', id(o), image(o.vec), repr(o.scale))
    if isinstance(o, (int, float, complex, str, bool, type(None), np.generic, range)):
        return (type(o).__name__, repr(o))
    return ('object', id(o))


class Guard(object):
    def __init__(self, env, what, *args):
        self.env, self.what, self.args = env, what, args

    def __enter__(self):
        self.before = [image(a) for a in self.args]

    def __exit__(self, t, e, tb):
        for j, (a, b) in enumerate(zip(self.args, self.before)):
            now = image(a)
            self.env.count('arguments_compared')
            self.env.check(now == b, 'modified:' + self.what.split()[0], '%s changed its argument %d: %s' % (self.what, j, diff(b, now)))
        self.env.count('calls_guarded')
        return False


def diff(a, b):
    if type(a) == type(b) and isinstance(a, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return '%s -> %s' % (repr(a)[:120], repr(b)[:120])


def layout(rng, a):
    """Same values in another memory layout."""
    a = np.array(a)
    k = pick(rng, ['C', 'F', 'strided', 'C'])
    if k == 'F':
        return np.asfortranarray(a)
    if k == 'strided' and a.ndim >= 1 and a.size:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    return a


def sprinkle(rng, a, values=(0., -0., 1e-305, 5e-324, 1e-200, 1e-40, -1e-18)):
    """Unusual numbers in a few places, sometimes."""
    a = np.array(a)
    if a.size and a.dtype.kind in 'fc' and rng.random() < .35:
        for _ in range(int(rng.integers(1, 4))):
            a[tuple(int(rng.integers(s)) for s in a.shape)] = pick(rng, values)
    return a


@contextlib.contextmanager
def numeric_failure(env):
    """Unusual numbers may make data singular; the arguments must stay as they
    are then as well."""
    try:
        yield
    except (np.linalg.LinAlgError, IndexError):
        env.count('calls_on_singular_data')


def call(env, what, fn, *args, **kw):
    with Guard(env, what, args, kw):
        with numeric_failure(env):
            fn(*args, **kw)
            env.count('calls_completed')


def idx(rng, k):
    c = [int(x) for x in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
    return pick(rng, [c, np.array(c)])


def arrays_case(env, i):
    """Decomposition functions on arrays."""
    rng = make_rng(env.seed, 'purearr', i)
    fam = pick(rng, ['POD', 'BPOD', 'DMD', 'TLS'])
    d = make_data(rng, fam)
    W = None if d.W is None else layout(rng, d.W)
    lay = lambda x: None if x is None else layout(rng, sprinkle(rng, x))
    with env.case((i, fam), dict(fam=fam, **d.desc)):
        k = d.k if fam in ('DMD', 'TLS') else d.r
        mi = None if rng.random() < .4 else idx(rng, k)
        if fam == 'POD':
            for f in (mr.compute_POD_arrays_snaps_method, mr.compute_POD_arrays_direct_method):
                o = trunc_opts(d, f is mr.compute_POD_arrays_direct_method)
                call(env, f.__name__, f, lay(d.X), mode_indices=mi, inner_product_weights=W, **o)
        elif fam == 'BPOD':
            call(env, 'compute_BPOD_arrays', mr.compute_BPOD_arrays, lay(d.X), lay(d.Y), num_inputs=d.p, num_outputs=d.q,
                 direct_mode_indices=mi, adjoint_mode_indices=mi, inner_product_weights=W, rtol=d.rtol)
        else:
            fs = ((mr.compute_DMD_arrays_snaps_method, mr.compute_DMD_arrays_direct_method) if fam == 'DMD' else
                  (mr.compute_TLSqrDMD_arrays_snaps_method, mr.compute_TLSqrDMD_arrays_direct_method))
            for f, direct in zip(fs, (False, True)):
                call(env, f.__name__, f, lay(d.V), adv_vecs=lay(d.Y), mode_indices=mi, inner_product_weights=W,
                     max_num_eigvals=d.max_num, **trunc_opts(d, direct))
        env.sig(fam, tuple(sorted(d.desc.items(), key=str)))
    env.sample(dict(fam=fam, **d.desc))


def utils_case(env, i):
    """Everything else that takes arrays or lists."""
    rng = make_rng(env.seed, 'pureutil', i)
    kind = gen_kind(rng)
    n, p, q = int(rng.integers(2, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    m = int(rng.integers(1, 6))
    L = lambda a: layout(rng, a)
    G = lambda *s: L(sprinkle(rng, gauss(rng, s, kind)))
    A, B, C = [L(x) for x in stable_discrete(rng, n, p, q, kind)]
    lists = lambda a: a.tolist() if rng.random() < .2 else a
    with env.case((i, 'utils'), dict(kind=kind, n=n, p=p, q=q, m=m)):
        call(env, 'svd', util.svd, G(n, m), atol=pick(rng, [0., 1e-13, 1e-2]), rtol=pick(rng, [None, 1e-3]))
        S = gauss(rng, (n, n), kind)
        S = S + S.conj().T
        call(env, 'eigh', util.eigh, L(S), atol=pick(rng, [1e-13, None, 1e-1]), rtol=pick(rng, [None, 1e-3]))
        call(env, 'eigh_posdef', util.eigh, L(spd(rng, n, kind)), is_positive_definite=True)
        call(env, 'eig_biorthog', util.eig_biorthog, G(n, n), scale_choice=pick(rng, ['left', 'right', 'LEFT']))
        call(env, 'atleast_2d', lambda a: (util.atleast_2d_row(a), util.atleast_2d_col(a)), lists(G(m)))
        call(env, 'flatten_list', util.flatten_list, [[1, 2], [], [3]])
        call(env, 'sum_lists', util.sum_lists, [G(2), G(2)], [G(2), G(2)])
        call(env, 'sum_arrays', util.sum_arrays, G(n, m), G(n, m))
        call(env, 'smart_eq', util.smart_eq, G(n, m), G(n, m))
        call(env, 'make_iterable', util.make_iterable, [1, 2])
        for a in (G(n, m), G(n), rng.integers(0, 9, (n, m)), L(rng.random((n, m)).astype(np.float32)), G(n, m).tolist()):
            call(env, 'save_array_text', util.save_array_text, a, 'a.txt')
        call(env, 'balanced_truncation', util.balanced_truncation, A, B, C, order=pick(rng, [None, 1]), return_sing_vals=bool(rng.integers(2)))
        nt = int(rng.integers(2, 9))
        x0 = G(n)
        u = L(gauss(rng, (nt, p), kind))
        call(env, 'lsim', util.lsim, A, B, C, u)
        call(env, 'lsim_ic', util.lsim, A, B, C, u, initial_condition=x0)
        call(env, 'impulse', util.impulse, A, B, C, num_time_steps=nt)
        call(env, 'Hankel', util.Hankel, lists(G(n)), lists(G(m)))
        call(env, 'Hankel', util.Hankel, G(n))
        chunk = lambda: G(q, p)
        call(env, 'Hankel_chunks', util.Hankel_chunks, [chunk() for _ in range(n)], [chunk() for _ in range(m)])
        call(env, 'Hankel_chunks', util.Hankel_chunks, [chunk() for _ in range(n)])
        env.sig('utils', kind, n, p, q, m)
    with env.case((i, 'models'), dict(kind=kind, n=n, p=p, q=q)):
        nt = 4 * n + 6
        M = sprinkle(rng, markov(A, B, C, nt))
        for Mk in (L(M), M.tolist(), [L(x) for x in M]):
            call(env, 'compute_ERA_model', mr.compute_ERA_model, Mk, n)
        e = mr.ERA(put_array=lambda a, dest: None, verbosity=0)
        Ms = L(M)
        with Guard(env, 'ERA repeated', Ms):
            e.compute_model(Ms, 1)
            e.compute_model(Ms, n, mc=n, mo=n)
            e.put_model('a', 'b', 'c')
            e.put_decomp('a', 'b', 'c', 'd', 'e')
            e.put_sing_vals('s')
        t = lists(L(np.arange(nt) * .25))
        call(env, 'make_sampled_format', mr.make_sampled_format, t, L(M))
        call(env, 'OKID', mr.OKID, lists(L(gauss(rng, (p, 60), kind))), lists(L(gauss(rng, (q, 60), kind))), 4)
        grids = [L(np.sort(rng.random(s))) for s in (n, m + 1)]
        with Guard(env, 'InnerProductTrapz', grids):
            ip = mr.InnerProductTrapz(*grids)
            call(env, 'InnerProductTrapz', ip, G(n, m + 1), G(n, m + 1))
        call(env, 'inner_product_array_uniform', vectors.inner_product_array_uniform, G(n, m), G(n, m))
        tasks = list(range(int(rng.integers(1, 12))))
        call(env, 'find_assignments', parallel.find_assignments, tasks, task_weights=rng.random(len(tasks)).tolist())
        call(env, 'find_assignments', parallel.find_assignments, tasks)
    with env.case((i, 'spaces'), dict(kind=kind, n=n, m=m)):
        for w in ('none', '1d', '2d'):
            W = gen_W(rng, n, kind, w)
            if w == '1d' and W is not None and np.ndim(W) == 1 and rng.random() < .5:
                W = np.array(W).reshape(pick(rng, [(1, -1), (-1, 1)]))
            W = None if W is None else lists(L(W))
            V1, V2 = G(n, m), G(n, p)
            with Guard(env, 'VectorSpaceArrays', W, V1, V2):
                vs = mr.VectorSpaceArrays(weights=W)
                vs.compute_inner_product_array(V1, V2)
                vs.compute_symm_inner_product_array(V1)
            co = L(gauss(rng, (m, 3), kind))
            call(env, 'lin_combine_arrays', vs.lin_combine, V1, lists(co), coeff_array_col_indices=pick(rng, [None, [2, 0], np.array([1])]))
        dt = .1
        call(env, 'compute_derivs_arrays', mr.compute_derivs_arrays, lists(G(n, m)), lists(G(n, m)), dt)
        k = int(rng.integers(1, n + 1))
        W = gen_W(rng, n, kind)
        W = None if W is None else L(W)
        Phi, Psi = G(n, k), (None if rng.random() < .4 else G(n, k))
        Aon, Bon, Con = G(n, k), G(n, p), G(q, k)
        with Guard(env, 'LTIGalerkinProjectionArrays', W, Phi, Psi, Aon, Bon, Con):
            g = mr.LTIGalerkinProjectionArrays(Phi, adjoint_basis_vecs=Psi, is_basis_orthonormal=bool(rng.integers(2)),
                                               inner_product_weights=W, put_array=lambda a, dest: None)
            for f in rng.permutation(5):
                step = [lambda: g.reduce_A(Aon), lambda: g.reduce_B(Bon), lambda: g.reduce_C(Con),
                        lambda: g.compute_model(Aon, Bon, Con), lambda: g.reduce_A(Aon)][int(f)]
                with numeric_failure(env):
                    step()
        env.sig('spaces', kind, n, m, k)


VECS = [('MVec', MVec), ('MVecI', MVecI), ('nd', np.array), ('user', UserVec)]


def mem_handles(rng, V, make, tag, log):
    """Handles of vectors that stay in memory, some with bases and scales."""
    out = []
    hk = pick(rng, ['mem', 'mem', 'ev-shared'])
    base = mr.VecHandleInMemory(make(gauss(rng, V.shape[0], 'real')))
    for j in range(V.shape[1]):
        if hk == 'mem':
            kw = {}
            if rng.random() < .3:
                kw = pick(rng, [dict(scale=1.), dict(scale=2), dict(base_vec_handle=base), dict(base_vec_handle=base, scale=.5), dict(scale=1j)])
            out.append(LoggedHandle((tag, j), mr.VecHandleInMemory(make(V[:, j]), **kw), log))
        else:
            # always hands out the very same object
            out.append(SharedHandle((tag, j), make(V[:, j]), log))
    return out, [base]


class SharedHandle(EvHandle):
    def get(self):
        self.gets += 1
        self.log.add('get', self.name)
        return self.data


def handles_case(env, i):
    """Vector-space operations on vectors in memory."""
    rng = make_rng(env.seed, 'purehandles', i, env.size)
    kind = gen_kind(rng)
    vk, make = pick(rng, VECS)
    n = int(rng.integers(1, 6))
    a, b = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    log = Log(env.rank)
    X, bx = mem_handles(rng, gauss(rng, (n, a), kind), make, 'x', log)
    Y, by = mem_handles(rng, gauss(rng, (n, b), kind), make, 'y', log)
    W = gen_W(rng, n, kind)
    limit = pick(rng, [None, 3 * env.size, 4 * env.size + 1, 100])
    desc = dict(np=env.size, vec=vk, kind=kind, n=n, a=a, b=b, limit=limit, handles=type(X[0]).__name__)
    env.sample(desc)
    with env.case(i, desc):
        vs = mr.VectorSpaceHandles(inner_product=any_ip(W), max_vecs_per_node=limit, verbosity=0)
        for op in [pick(rng, ['ip', 'symm', 'lin', 'lin', 'sanity', 'derivs']) for _ in range(4)]:
            if op == 'ip':
                with Guard(env, 'compute_inner_product_array', X, Y, bx, by, W):
                    vs.compute_inner_product_array(X, Y)
            elif op == 'symm':
                with Guard(env, 'compute_symm_inner_product_array', X, bx, W):
                    vs.compute_symm_inner_product_array(X)
            elif op == 'sanity':
                with Guard(env, 'sanity_check', X, bx):
                    vs.sanity_check(X[0])
            elif op == 'derivs':
                k = min(a, b)
                outs = [EvHandle(('d', j), None, log, make=make) for j in range(k)]
                put_any(outs)
                with Guard(env, 'compute_derivs_handles', X[:k], Y[:k], bx, by):
                    mr.compute_derivs_handles(X[:k], Y[:k], outs, .5)
            else:
                cols = int(rng.integers(1, 7))
                co = pick(rng, [gauss(rng, (a, cols), kind), rng.integers(-1, 2, (a, cols)), np.ones((a, cols)), np.eye(a, cols)])
                co = co.tolist() if rng.random() < .3 else layout(rng, co)
                ci = None if rng.random() < .5 else [int(x) for x in rng.permutation(cols)[:int(rng.integers(1, cols + 1))]]
                ns = cols if ci is None else len(ci)
                # outputs that keep exactly the object they are given
                outs = [mr.VecHandleInMemory() for _ in range(ns)]
                with Guard(env, 'lin_combine', X, bx, co, ci):
                    vs.lin_combine(outs, X, co, coeff_array_col_indices=ci)
                with Guard(env, 'lin_combine again', X, bx, co, ci):
                    vs.lin_combine(outs, X, co, coeff_array_col_indices=ci)
                env.count('lin_combines')
            env.sig(env.size, vk, kind, n, a, b, limit, op)
        env.check(not any(e[2] == 'put' and e[3][0] in ('x', 'y') for e in log.events), 'input-put', 'an input handle was put')


def put_any(outs):
    for o in outs:
        def put(vec, o=o):
            o.puts += 1
            o.data = vec
        o.put = put


def classes_case(env, i, fam):
    """Whole decompositions of vectors in memory."""
    rng = make_rng(env.seed, 'pureclass', fam, i, env.size)
    d = make_data(rng, fam)
    vk = pick(rng, ['MVec', 'MVecI', 'nd1', 'user'])
    desc = dict(fam=fam, np=env.size, vec=vk, **d.desc)
    env.sample(desc)
    with env.case((i, fam), desc):
        r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [None, 3 * env.size, 5 * env.size]), vk=vk, hk='mem')
        r.load(d)
        args = [r.h, getattr(r, 'ha', None), d.W]
        with Guard(env, 'decomp', *args):
            r.decomp()
        for w in r.KINDS[fam]:
            k = r.count()
            mi = idx(rng, k)
            with Guard(env, 'compute_' + w, mi, *args):
                r.modes(w, idx=mi)
        with Guard(env, 'coefficients', *args):
            r.coeffs()
        # arrays the user holds stay as they are while the object goes on computing
        res = r.arrays()
        with Guard(env, 'repeated-use', res, *args):
            r.decomp()
            r.all_modes()
            r.coeffs()
        r.obj.sanity_check(r.h[0])
        env.check(not any(e[2] == 'put' and e[3][0] != 'mode' for e in r.log.events), 'input-put', 'an input handle was put')
        env.sig(tuple(sorted(desc.items(), key=str)))


def gal_handles_case(env, i):
    rng = make_rng(env.seed, 'puregal', i, env.size)
    kind = gen_kind(rng)
    vk, make = pick(rng, VECS)
    n, k, p, q = int(rng.integers(3, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 4))
    log = Log(env.rank)
    mk = lambda c, tag: mem_handles(rng, gauss(rng, (n, c), kind), make, tag, log)
    (P, b1), (Q, b2), (A, b3), (B, b4) = mk(k, 'p'), mk(k, 'q'), mk(k, 'a'), mk(p, 'b')
    adj = None if rng.random() < .4 else Q
    C = [gauss(rng, q, kind) for _ in range(k)]
    desc = dict(np=env.size, vec=vk, kind=kind, n=n, k=k, p=p, q=q, adjoint=adj is not None)
    with env.case((i, 'gal'), desc):
        with Guard(env, 'LTIGalerkinProjectionHandles', P, Q, A, B, C, b1, b2, b3, b4):
            g = mr.LTIGalerkinProjectionHandles(any_ip(gen_W(rng, n, kind)), P, adjoint_basis_vec_handles=adj,
                                                is_basis_orthonormal=bool(rng.integers(2)), max_vecs_per_node=3 * env.size, verbosity=0,
                                                put_array=lambda a, dest: None)
            g.compute_model(A, B, C)
            g.reduce_B(B)
            g.reduce_A(A)
            g.reduce_C(C)
            g.put_model('a', 'b', 'c')
        env.check(not any(e[2] == 'put' for e in log.events), 'input-put', 'an input handle was put')
        env.sig(tuple(sorted(desc.items())))


def files_case(env, i):
    """Loading leaves files as they are."""
    rng = make_rng(env.seed, 'purefiles', i)
    kind = gen_kind(rng)
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    with env.case(i, dict(kind=kind, n=n, m=m)):
        util.save_array_text(gauss(rng, (n, m), kind), 'a.txt')
        sig = np.column_stack((np.arange(n), gauss(rng, (n, m), 'real')))
        for f in ('s1.txt', 's2.txt'):
            util.save_array_text(sig, f)
        h = mr.VecHandlePickle('v.pkl')
        h.put(gauss(rng, (n, m), kind))
        names = ['a.txt', 's1.txt', 's2.txt', 'v.pkl']
        before = [open(f, 'rb').read() for f in names]
        paths = ['s1.txt', 's2.txt']
        with Guard(env, 'load', paths):
            util.load_array_text('a.txt', is_complex=kind == 'complex')
            util.load_signals('s1.txt')
            util.load_multiple_signals(paths)
            mr.VecHandlePickle('v.pkl', base_vec_handle=h, scale=2.).get()
            mr.VecHandleArrayText('a.txt', is_complex=kind == 'complex', scale=-1).get()
            util.get_file_list('.', '.txt')
        after = [open(f, 'rb').read() for f in names]
        env.check(before == after, 'file-modified', 'loading changed a file')
        env.check(sorted(os.listdir('.')) == sorted(names), 'file-created', 'files %s' % os.listdir('.'))
        env.sig('files', kind, n, m)
