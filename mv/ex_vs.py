"""Workloads on vector spaces of handles: inner-product arrays, linear
combinations, with reference oracles over the observed events."""
import os

import numpy as np
import modred as mr
from modred import parallel

from .core import make_rng
from .data import gauss, special_array, weights, gram
from .instr import (MVec, MVecI, EvHandle, LoggedHandle, Log, LIVE, ip_for, raw,
                    make_delay, PROFILES, perturbed)


class UserVec(mr.Vector):
    """Minimal vector as the documentation recommends: + and * only."""

    def __init__(self, data):
        self.arr = np.array(data)

    def __add__(self, other):
        return UserVec(self.arr + other.arr)

    def __mul__(self, s):
        return UserVec(self.arr * s)


def content(v):
    return np.array(v.arr) if isinstance(v, UserVec) else raw(v)


def any_ip(W):
    base = ip_for(W)

    def ip(a, b):
        return base(a.arr if isinstance(a, UserVec) else a, b.arr if isinstance(b, UserVec) else b)
    return ip


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def vec_values(rng, n, count, kind):
    """n x count matrix of vector contents, plus list of per-vector dtypes."""
    if kind == 'mixed':
        V = gauss(rng, (n, count), 'complex')
        for j in range(count):
            if j == 0 or rng.random() < 0.5:
                V[:, j] = V[:, j].real
        return V, [complex if np.any(V[:, j].imag) else float for j in range(count)]
    if kind == 'intfloat':
        V = rng.integers(-4, 5, (n, count)).astype(float)
        types = [int] * count
        for j in range(1, count):
            if rng.random() < 0.6:
                V[:, j] += rng.uniform(0.1, 0.9, n)
                types[j] = float
        return V, types
    if kind == 'sparse':
        # many exactly orthogonal vectors and zero vectors
        V = np.zeros((n, count), dtype=complex)
        for j in range(count):
            if rng.random() < 0.85:
                V[int(rng.integers(n)), j] = rng.integers(1, 4) * (1j if rng.random() < .5 else 1.)
        return V, [complex] * count
    if kind == 'int':
        return rng.integers(-5, 6, (n, count)).astype(float), [int] * count
    V = gauss(rng, (n, count), kind)
    return V, [complex if kind == 'complex' else float] * count


def units(rng, k, floats):
    """Units of k vectors: one, the same for all, or one for each."""
    which = pick(rng, ['one', 'one', 'same', 'each'])
    if not floats or which == 'one':
        return np.ones(k)
    if which == 'same':
        return np.full(k, 10. ** rng.uniform(-30, 30))
    return 10. ** rng.uniform(-9, 9, k)


HANDLES = ['ev', 'ev', 'ev', 'mem', 'text', 'pickle']
VECS = ['MVec', 'MVecI', 'nd1', 'nd2', 'user']


def build_handles(env, rng, V, types, hkind, vkind, tag, log, delay=None, shape2=None):
    """Handles whose contents are the columns of V."""
    out = []
    for j in range(V.shape[1]):
        col = V[:, j]
        col = col.real.astype(types[j]) if types[j] is not complex else col.astype(complex)
        name = (tag, j)
        if hkind == 'ev':
            if vkind == 'nd2' and shape2:
                out.append(EvHandle(name, col.reshape(shape2), log, make=np.array, delay=delay))
            else:
                make = {'MVec': MVec, 'MVecI': MVecI, 'nd1': np.array, 'nd2': np.array, 'user': UserVec}[vkind]
                out.append(EvHandle(name, col, log, make=make, delay=delay))
        elif hkind == 'mem':
            make = {'MVec': MVec, 'MVecI': MVecI, 'nd1': np.array, 'nd2': np.array, 'user': UserVec}[vkind]
            out.append(LoggedHandle(name, mr.VecHandleInMemory(make(col)), log, delay))
        elif hkind == 'text':
            h = mr.VecHandleArrayText(os.path.join(env.scratch, '%s_%d.txt' % (tag, j)), is_complex=types[j] is complex)
            if env.rank == 0:
                h.put(col)
            out.append(LoggedHandle(name, h, log, delay))
        else:
            make = {'MVec': MVec, 'MVecI': MVecI, 'nd1': np.array, 'nd2': np.array, 'user': UserVec}[vkind]
            h = mr.VecHandlePickle(os.path.join(env.scratch, '%s_%d.pkl' % (tag, j)))
            if env.rank == 0:
                h.put(make(col))
            out.append(LoggedHandle(name, h, log, delay))
    if hkind in ('text', 'pickle') and env.size > 1:
        env.comm.Barrier()
    return out


def pick_max_vecs(rng, size):
    return pick(rng, [None, 1, 3, 3 * size, 3 * size + 1, 4 * size, 5 * size, 7 * size, 50])


def pick_len(rng, size, big=14):
    return int(pick(rng, [1, 2, 3, 4, 5, size, size + 1, max(1, size - 1), 2 * size, 2 * size + 1, 3 * size, int(rng.integers(1, big + 1)),
                          int(rng.integers(1, big + 1))]))


def pick_config(env, rng):
    hk = pick(rng, HANDLES)
    vk = pick(rng, VECS)
    if hk == 'text':
        vk = 'nd1'
    return hk, vk


def space(env, rng, ip, max_vecs):
    return mr.VectorSpaceHandles(
        inner_product=ip, max_vecs_per_node=max_vecs,
        verbosity=int(rng.integers(2)), print_interval=pick(rng, [10, 0]))


def ip_case(env, i, delays=False, only=None):
    """Inner-product arrays of random lists against the pairwise reference."""
    rng = make_rng(env.seed, 'ip', i, env.size)
    hk, vk = pick_config(env, rng)
    kind = only or pick(rng, ['real', 'complex', 'complex', 'mixed', 'intfloat', 'int', 'sparse'])
    n = int(rng.integers(2, 9))
    shape2 = None
    if vk == 'nd2' and hk == 'ev':
        shape2 = (2, n)
        n = 2 * n
    nr, nc = pick_len(rng, env.size), pick_len(rng, env.size)
    max_vecs = pick_max_vecs(rng, env.size)
    if i % 40 == 39:
        # many vectors
        nr, nc = pick(rng, [(110, 13), (17, 104), (60, 60), (1, 130), (130, 2), (51, 52), (2, 270 * env.size), (300, 3)])
        max_vecs = pick(rng, [None, 10 * env.size, 1000])
    W = weights(rng, n, pick(rng, ['none', '1d', '2d']), 'complex' if kind in ('complex', 'mixed', 'sparse') else 'real')
    if kind in ('int', 'sparse', 'intfloat'):
        W = None
    profile = pick(rng, PROFILES) if delays else 'none'
    env.desc = dict(i=i, np=env.size, handles=hk, vec=vk, kind=kind, rows=nr, cols=nc, n=n,
                    max_vecs=max_vecs, W=None if W is None else W.ndim, profile=profile)
    log = Log(env.rank)
    delay = make_delay(rng, profile, env.rank, env.size)
    X, tx = vec_values(rng, n, nr, kind)
    Y, ty = vec_values(rng, n, nc, kind)
    if nr > 1 and nc > 0 and rng.random() < 0.15:
        Y[:, 0] = 0
    floats = kind in ('real', 'complex', 'mixed')
    ux, uy = units(rng, nr, floats), units(rng, nc, floats)
    X, Y = X * ux, Y * uy
    env.desc['units'] = None if np.all(ux == 1) and np.all(uy == 1) else (ux.min(), ux.max(), uy.min(), uy.max())
    env.count('entries_in_other_units', 0 if env.desc['units'] is None else nr * nc)
    hx = build_handles(env, rng, X, tx, hk, vk, 'x', log, delay, shape2)
    hy = build_handles(env, rng, Y, ty, hk, vk, 'y', log, delay, shape2)
    ip = any_ip(W)
    mode = pick(rng, ['np', 'np', 'py'])
    if W is None and vk in ('nd1', 'nd2') and rng.random() < .6:
        # the one that comes with the library
        mode, ipu = 'np', mr.inner_product_array_uniform
        ref_ip = ip
        ip = lambda a, b: ipu(a, b) if live[0] else ref_ip(a, b)
        env.count('library_inner_products')
    live = [False]
    calls = [0]

    def ipf(a, b):
        calls[0] += 1
        live[0] = True
        v = ip(a, b)
        live[0] = False
        return v.item() if mode == 'py' else v
    vs = space(env, rng, ipf, max_vecs)
    with env.case(i, env.desc):
        with perturbed(parallel, delay, sync=bool(rng.integers(2)), log=log):
            arg_r = hx[0] if nr == 1 and rng.random() < 0.5 else hx
            arg_c = hy[0] if nc == 1 and rng.random() < 0.5 else hy
            got = vs.compute_inner_product_array(arg_r, arg_c)
            ref = np.array([[ip(content(a), content(b)) for b in Y.T] for a in X.T])
            env.check(isinstance(got, np.ndarray), 'ip-type', 'result is %s' % type(got))
            unit = np.outer(ux, uy)
            env.close(got / unit, ref / unit, 'ip-array', 1e-10, scale=max(1., np.abs(ref / unit).max()), what='inner product array') if np.shape(got) == np.shape(ref) else env.close(got, ref, 'ip-array')
            env.count('ip_entries_checked', ref.size)
            if kind == 'real':
                env.check(not np.iscomplexobj(got), 'ip-real', 'real data gave complex array')
            if i % 3 == 0:
                # one list as both rows and columns
                got = vs.compute_inner_product_array(hx, hx)
                ref = np.array([[ip(content(a), content(b)) for b in X.T] for a in X.T])
                unit = np.outer(ux, ux)
                env.close(got / unit, ref / unit, 'ip-array', 1e-10, scale=max(1., np.abs(ref / unit).max()), what='inner product array of a list with itself') if np.shape(got) == np.shape(ref) else env.close(got, ref, 'ip-array')
                env.count('ip_entries_checked', ref.size)
            # symmetric variant, on the same object
            got = vs.compute_symm_inner_product_array(arg_r)
            ref = np.array([[ip(content(a), content(b)) for b in X.T] for a in X.T])
            unit = np.outer(ux, ux)
            env.close(got / unit, ref / unit, 'symm-ip-array', 1e-10, scale=max(1., np.abs(ref / unit).max()), what='symmetric inner product array') if np.shape(got) == np.shape(ref) else env.close(got, ref, 'symm-ip-array')
            env.close(got / unit, np.asarray(got).conj().T / unit, 'symm-ip-hermitian', 1e-14, scale=max(1., np.abs(ref / unit).max()), what='Hermitian symmetry')
            env.count('symm_entries_checked', ref.size)
        env.check(not any(e[2] == 'put' for e in log.events), 'ip-put', 'an input handle was put')
        env.count('get_events', sum(e[2] == 'get' for e in log.events))
        env.count('inner_product_calls', calls[0])
        if nr * nc > 1:
            env.sig(env.size, hk, vk, kind, nr, nc, max_vecs, profile)
        env.sample(env.desc)
    env.value = [(e[0], e[1], e[2]) for e in log.events if e[2] in ('get', 'mpi')][:400]


def ref_columns(V, coeffs):
    return V.dot(coeffs)


def lin_case(env, i, delays=False):
    """Linear combinations: exactly-once puts of the right sums."""
    rng = make_rng(env.seed, 'lin', i, env.size)
    hk, vk = pick_config(env, rng)
    kind = pick(rng, ['real', 'complex', 'int', 'mixed', 'intfloat'])
    n = int(rng.integers(2, 9))
    nb = pick_len(rng, env.size)
    ns_all = pick_len(rng, env.size)
    ckind = pick(rng, ['real', 'complex', 'int'])
    max_vecs = pick_max_vecs(rng, env.size)
    if i % 40 == 39:
        # many vectors
        nb, ns_all = pick(rng, [(110, 13), (17, 104), (60, 60), (1, 130), (130, 2), (51, 52), (2, 270 * env.size), (300, 3)])
        max_vecs = pick(rng, [None, 10 * env.size, 1000])
    profile = pick(rng, PROFILES) if delays else 'none'
    coeffs = (gauss(rng, (nb, ns_all), ckind) if ckind != 'int' else rng.integers(-3, 4, (nb, ns_all)))
    if rng.random() < 0.3:
        coeffs = coeffs * (rng.random((nb, ns_all)) < 0.6)   # zeros among coefficients
    elif ckind != 'int' and rng.random() < .15:
        coeffs = special_array(rng, nb, ns_all, ckind)
    sel = pick(rng, ['all', 'none-given', 'subset', 'shuffled', 'array', 'range', 'scalar', 'tuple', 'repeat'])
    if sel in ('all', 'none-given'):
        cols, arg = list(range(ns_all)), (None if sel == 'none-given' else list(range(ns_all)))
    elif sel == 'range':
        k = int(rng.integers(1, ns_all + 1))
        cols, arg = list(range(k)), range(k)
    elif sel == 'scalar':
        c = int(rng.integers(ns_all))
        cols, arg = [c], c
    elif sel == 'repeat':
        cols = [int(rng.integers(ns_all)) for _ in range(int(rng.integers(1, ns_all + 2)))]
        arg = cols
    else:
        k = int(rng.integers(1, ns_all + 1))
        cols = [int(c) for c in rng.permutation(ns_all)[:k]]
        if sel == 'subset':
            cols.sort()
        arg = np.array(cols) if sel == 'array' else (tuple(cols) if sel == 'tuple' else cols)
        if sel == 'tuple':
            arg = list(cols)
    floats = kind in ('real', 'complex', 'mixed') and ckind != 'int'
    ub, us = units(rng, nb, floats), units(rng, ns_all, floats)
    coeffs = coeffs / ub[:, None] * us if floats else coeffs
    carg = coeffs
    oned = False
    if arg is None and ns_all == 1 and nb > 1 and rng.random() < .6:
        carg, oned = coeffs[:, 0], True
    elif arg is None and nb == 1 and rng.random() < .6:
        carg, oned = coeffs[0], True
    carg = coeff_form(rng, carg)
    env.desc = dict(i=i, np=env.size, handles=hk, vec=vk, kind=kind, ckind=ckind, bases=nb, cols=ns_all, sel=sel,
                    chosen=cols, oned=oned, n=n, max_vecs=max_vecs, profile=profile)
    log = Log(env.rank)
    delay = make_delay(rng, profile, env.rank, env.size)
    V, tv = vec_values(rng, n, nb, kind)
    V = V * ub
    env.desc['units'] = None if np.all(ub == 1) and np.all(us == 1) else (ub.min(), ub.max(), us.min(), us.max())
    hb = build_handles(env, rng, V, tv, hk, vk, 'b', log, delay)
    ns = len(cols)
    out_complex = ckind == 'complex' or complex in tv
    if hk in ('ev', 'mem'):
        outs = [EvHandle(('s', k), None, log, delay=delay, make=MVec if vk != 'user' else UserVec) for k in range(ns)]
        if vk == 'user':
            for o in outs:
                o.put = _user_put(o)
    elif hk == 'text':
        outs = [LoggedHandle(('s', k), mr.VecHandleArrayText(os.path.join(env.scratch, 's_%d.txt' % k), is_complex=out_complex), log, delay)
                for k in range(ns)]
    else:
        outs = [LoggedHandle(('s', k), mr.VecHandlePickle(os.path.join(env.scratch, 's_%d.pkl' % k)), log, delay) for k in range(ns)]
    extra = EvHandle(('s', 'unrelated'), None, log)
    ref = V.dot(coeffs[:, cols])
    us = us[cols]
    scale = max(1., (np.abs(V).dot(np.abs(coeffs[:, cols])) / us).max())
    env.count('outputs_in_other_units', 0 if env.desc['units'] is None else ns)
    vs = space(env, rng, any_ip(None), max_vecs)
    carg_copy = np.array(carg)
    puts = []
    with env.case(i, env.desc):
        with perturbed(parallel, delay, sync=bool(rng.integers(2)), log=log):
            o_arg = outs[0] if ns == 1 and rng.random() < .4 else outs
            b_arg = hb[0] if nb == 1 and rng.random() < .4 else hb
            if arg is None:
                vs.lin_combine(o_arg, b_arg, carg)
            else:
                vs.lin_combine(o_arg, b_arg, carg, coeff_array_col_indices=arg)
        env.check(np.array_equal(np.array(carg), carg_copy), 'lin-coeffs-modified')
        puts = [e[3] for e in log.events if e[2] == 'put']
        env.count('put_events', len(puts))
        env.check(not any(p[0] == 'b' for p in puts), 'lin-basis-put', 'a basis handle was put')
        # content visible to this rank
        mine = {}
        for p in puts:
            if p[0] == 's':
                h = outs[p[1]]
                if isinstance(h, EvHandle):
                    mine[p[1]] = np.array(h.data)
                else:
                    mine[p[1]] = content(h.inner.get())
        for k, val in mine.items():
            env.close(np.asarray(val).reshape(-1) / us[k], ref[:, k] / us[k], 'lin-value', 1e-10, scale=scale, what='output %d' % k)
            env.count('outputs_checked')
        if nb * ns > 1:
            env.sig(env.size, hk, vk, kind, ckind, nb, ns, sel, max_vecs, profile)
        env.sample(env.desc)
    env.value = dict(puts=puts, ns=ns)


def coeff_form(rng, a):
    '''The same coefficients in one of the forms in which a caller may hold them.'''
    form = pick(rng, ['array', 'array', 'array', 'fortran', 'list', 'rows', 'tuples', 'strided', 'readonly'])
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'list':
        return a.tolist()
    if form == 'rows':
        return list(a)
    if form == 'tuples':
        return tuple(tuple(r) for r in a.tolist()) if a.ndim == 2 else tuple(a.tolist())
    if form == 'strided':
        return np.repeat(a, 2, axis=0)[::2]
    if form == 'readonly':
        a = a.copy()
        a.flags.writeable = False
    return a


def _user_put(h):
    def put(vec):
        if h.delay is not None:
            h.delay('put')
        h.puts += 1
        h.data = content(vec)
        h.log.add('put', h.name)
    return put


def lin_misuse(env, i):
    """Mismatched dimensions: ValueError, nothing put."""
    rng = make_rng(env.seed, 'linbad', i, env.size)
    nb, ns = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    log = Log(env.rank)
    V, tv = vec_values(rng, 4, nb, 'real')
    hb = build_handles(env, rng, V, tv, 'ev', 'MVec', 'b', log)
    which = pick(rng, ['rows', 'cols', 'sel'])
    r, c, sel = nb, ns, None
    if which == 'rows':
        r = pick(rng, [x for x in range(1, 8) if x != nb])
    elif which == 'cols':
        c = pick(rng, [x for x in range(1, 8) if x != ns])
    else:
        c = ns + 2
        sel = list(range(pick(rng, [x for x in range(1, ns + 3) if x != ns])))
    coeffs = rng.standard_normal((r, c))
    outs = [EvHandle(('s', k), None, log) for k in range(ns)]
    vs = space(env, rng, any_ip(None), 50)
    env.desc = dict(i=i, np=env.size, bases=nb, outs=ns, coeffs=(r, c), sel=sel)
    env.count('evaluations')
    env.raises(ValueError, 'lin-mismatch-accepted',
               lambda: vs.lin_combine(outs, hb, coeffs, coeff_array_col_indices=sel), 'mismatched lin_combine %s' % (env.desc,))
    env.check(not any(e[2] == 'put' for e in log.events), 'lin-mismatch-put', 'output put despite mismatch')
    env.sig('misuse', nb, ns, r, c, which)
