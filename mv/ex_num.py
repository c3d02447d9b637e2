"""Serial numerical utilities: text files, ERA, OKID, inner products, matrix
decompositions, Hankel arrays, linear systems and small helpers."""
import os

import numpy as np
import modred as mr
from modred import util

from .core import make_rng
from .data import gauss, ortho, spd, special_array, spectrum_array, stable_discrete, markov, weights
from .ex_vs import pick, coeff_form


# ================================================================ C09
LAYOUTS = ['C', 'F', 'strided', 'transposed', 'reversed', 'list', 'broadcast', 'readonly']
DTYPES = ['f8', 'f8', 'f4', 'f2', 'i1', 'i2', 'i4', 'i8', 'u1', 'u8', '?', 'c16', 'c16', 'c8', '>f8', '>c16']
EXTREME = [0., -0., np.inf, -np.inf, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 1e-300, 1. / 3, -2. / 3, 0.1,
           123456789.123456789, 1e22, 9007199254740993., 1e-5, 1e16, 1 + 2.2e-16, np.pi]


def text_array(rng, dt, shape, mode):
    dtype = np.dtype(dt)
    k = dtype.kind
    if k == 'b':
        return rng.random(shape) < .5
    if k in 'iu':
        info = np.iinfo(dtype)
        lo, hi = max(info.min, -2 ** 53), min(info.max, 2 ** 53)
        a = rng.integers(lo, hi, shape, endpoint=True)
        if mode == 'small':
            a = a % 7
        return a.astype(dtype)
    def part():
        if mode == 'gauss':
            return rng.standard_normal(shape)
        if mode == 'small':
            return rng.integers(-3, 4, shape).astype(float)
        if mode == 'wide':
            return rng.standard_normal(shape) * 10. ** rng.uniform(-300, 300, shape)
        return np.array([pick(rng, EXTREME) for _ in range(int(np.prod(shape)))]).reshape(shape)
    if k == 'c':
        out = np.empty(shape, dtype=dtype)
        out.real, out.imag = part(), part()
        if rng.random() < .2:
            out.imag = 0
        return out
    return part().astype(dtype)


def lay_out(rng, a, layout):
    if layout == 'C':
        return np.ascontiguousarray(a)
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'strided':
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if layout == 'transposed':
        return np.ascontiguousarray(a.T).T
    if layout == 'reversed':
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == 'list':
        return a.tolist()
    if layout == 'broadcast':
        return np.broadcast_to(a[:1], a.shape)
    b = a.copy()
    b.flags.writeable = False
    return b


def bits(a):
    return np.ascontiguousarray(a).view(np.uint8)


def text_case(env, i):
    rng = make_rng(env.seed, 'text', i)
    for j in range(12):
        dt = pick(rng, DTYPES)
        nd = int(rng.integers(1, 3))
        shape = tuple(int(x) for x in ([pick(rng, [1, 2, 3, 7, 30])] if nd == 1 else [pick(rng, [1, 1, 2, 3, 4, 17]), pick(rng, [1, 1, 2, 3, 5, 12])]))
        if j == 11 and i % 20 == 7:
            shape = (int(rng.integers(200, 1500)),) if nd == 1 else pick(rng, [(2, 700), (300, 40), (1200, 3), (1, 1030)])
        mode = pick(rng, ['gauss', 'extreme', 'wide', 'small'])
        layout = pick(rng, LAYOUTS)
        delim = pick(rng, [None, None, ',', ';', '\t', ' ', '|'])
        a = text_array(rng, dt, shape, mode)
        x = lay_out(rng, a, layout)
        want = np.array(x)
        keep = want.copy()
        cplx = want.dtype.kind == 'c'
        want = want.astype(complex if cplx else float)
        if nd == 1:
            want = want.reshape(-1, 1)
        name = os.path.join(env.scratch, 'a%d.%s' % (j % 3, pick(rng, ['txt', 'dat'])))
        with env.case((i, j), dict(dtype=dt, shape=shape, mode=mode, layout=layout, delim=delim)):
            kw = {} if delim is None and rng.random() < .5 else dict(delimiter=delim)
            if rng.random() < .15 and not cplx:
                kwl = dict(kw, is_complex=False)
            else:
                kwl = dict(kw, is_complex=True) if cplx else kw
            util.save_array_text(x, name, **kw)
            got = util.load_array_text(name, **kwl)
            if env.check(isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype == want.dtype, 'text-shape',
                         'loaded %s %s, expected %s %s' % (getattr(got, 'shape', got), getattr(got, 'dtype', ''), want.shape, want.dtype)):
                env.check(np.array_equal(bits(got), bits(want)), 'text-values', 'loaded %r, saved %r' % (got.ravel()[:8], want.ravel()[:8]))
            env.check(np.array_equal(np.array(x), keep), 'text-input', 'the array was modified')
            env.count('roundtrips')
            # file format as documented: pairs of columns
            if rng.random() < .2:
                rawtab = np.loadtxt(name, delimiter=delim, ndmin=2)
                ref = want if not cplx else np.stack((want.real, want.imag), axis=-1).reshape(want.shape[0], -1)
                env.check(np.array_equal(rawtab, ref), 'text-format', 'documented file format')
            if cplx and rng.random() < .3:
                ref = np.stack((want.real, want.imag), axis=-1).reshape(want.shape[0], -1)
                got = util.load_array_text(name, **kw)
                env.equal(got, ref, 'text-as-real', 'complex file loaded as real')
            if not cplx and want.shape[1] % 2 == 1:
                env.raises(ValueError, 'text-odd', lambda: util.load_array_text(name, is_complex=True, **kw), 'complex load of %d columns' % want.shape[1])
            if rng.random() < .1:
                env.raises(RuntimeError, 'text-3d', lambda: util.save_array_text(np.zeros((2,) * int(rng.integers(3, 5))), os.path.join(env.scratch, 'bad')), '>2 dimensions')
                env.check(not os.path.exists(os.path.join(env.scratch, 'bad')), 'text-3d-file', 'a file was written for >2 dimensions')
            env.sig(dt, shape, mode, layout, delim)
        env.sample(env.desc)


def signals_case(env, i):
    rng = make_rng(env.seed, 'signals', i)
    nt = int(pick(rng, [1, 2, 3, int(rng.integers(2, 30))]))
    ns = int(rng.integers(1, 5))
    nf = int(rng.integers(1, 5))
    if i % 20 == 7:
        nt, ns, nf = pick(rng, [(int(rng.integers(30, 1500)), 2, 2), (60, int(rng.integers(5, 60)), 2), (30, 2, 15)])
    delim = pick(rng, [None, ',', ' '])
    t = np.cumsum(rng.uniform(.1, 1, nt)) * pick(rng, [1, 1, 100., .01]) - 3.
    unit = pick(rng, [1., 1., 1e-9, 1e-6, 1e4, 1e-30])
    t = t * unit
    env.count('times_in_other_units', int(unit != 1))
    order = pick(rng, ['up', 'up', 'down', 'any', 'ties'])
    if order == 'down':
        t = t[::-1].copy()
    elif order == 'any':
        rng.shuffle(t)
    elif order == 'ties':
        t = t[rng.integers(0, nt, nt)]
    # rows that occur more than once, such as in the format 0 1 1 2 2 3
    rows = np.arange(nt)
    if rng.random() < .3:
        rows = np.sort(rng.integers(0, nt, nt)) if rng.random() < .5 else np.repeat(rows, 2)[1:nt + 1] if nt > 1 else rows
        t = t[rows]
        env.count('signals_with_repeated_lines')
    special = pick(rng, ['no', 'no', 'zeros', 'constant', 'inf'])
    with env.case(i, dict(order=order, nt=nt, ns=ns, files=nf, delim=delim, special=special, repeated=bool(len(np.unique(rows)) < nt))):
        paths, S = [], []
        for f in range(nf):
            s = (rng.standard_normal((nt, ns)) * 10. ** rng.integers(-10, 10))[rows]
            if special == 'zeros':
                s *= rng.random(s.shape) < .3
            elif special == 'constant':
                s[:] = s[0]
            elif special == 'inf':
                s[rng.random(s.shape) < .2] = pick(rng, [np.inf, -np.inf])
            path = os.path.join(env.scratch, 's%d.txt' % f)
            np.savetxt(path, np.column_stack((t, s)), fmt='%.18e', **({} if delim is None else dict(delimiter=delim)))
            paths.append(path)
            S.append(s)
        kw = {} if delim is None else dict(delimiter=delim)
        for f in range(nf):
            tt, ss = mr.load_signals(paths[f], **kw)
            env.equal(tt, t, 'signals-time', 'time values')
            env.equal(ss, S[f], 'signals-values', 'signals')
            env.count('signal_files')
        tt, ss = mr.load_multiple_signals(paths, **kw)
        env.equal(tt, t, 'signals-time', 'time values of several files')
        env.equal(ss, np.array(S), 'signals-values', 'signals of several files')
        # broken files
        bad = os.path.join(env.scratch, 'bad.txt')
        np.savetxt(bad, t.reshape(-1, 1))
        env.raises(ValueError, 'signals-one-column', lambda: mr.load_signals(bad), 'one column only')
        which = pick(rng, ['shift', 'one', 'shorter', 'longer', 'channels'])
        t2, s2 = t.copy(), rng.standard_normal((nt, ns))
        if which == 'shift':
            t2 = t + .5 * np.abs(t).max() + unit
        elif which == 'one':
            t2[int(rng.integers(nt))] += .05 * (np.abs(t).max() + unit)
        elif which == 'shorter' and nt > 1:
            t2, s2 = t[:-1], s2[:-1]
        elif which == 'channels':
            s2 = rng.standard_normal((nt, pick(rng, [c for c in range(1, 6) if c != ns])))
        else:
            t2, s2 = np.append(t, t[-1] + unit), np.vstack((s2, s2[-1:]))
        np.savetxt(bad, np.column_stack((t2, s2)), fmt='%.18e', **kw)
        pos = int(rng.integers(0, nf + 1))
        mixed = paths[:pos] + [bad] + paths[pos:]
        env.raises(ValueError, 'signals-inconsistent', lambda: mr.load_multiple_signals(mixed, **kw), 'file %d of %d is inconsistent (%s)' % (pos, len(mixed), which))
        env.sig(nt, ns, nf, delim, which, pos)
    env.sample(env.desc)


# ================================================================ C17
def era_system(rng, n, p, q, kind):
    """Well conditioned system with distinct positive (powers stay distinct) eigenvalues."""
    lam = np.sort(rng.uniform(.25, .4) + (np.arange(n) + rng.uniform(-.2, .2, n)) * .55 / max(n, 1))[::-1]
    lam = lam.astype(complex if kind == 'complex' else float)
    if kind == 'complex':
        lam = lam * np.exp(1j * rng.uniform(-.3, .3, n))
    T = ortho(rng, n, n, kind)
    A = T.dot(np.diag(lam) + .1 * np.triu(gauss(rng, (n, n), kind), 1)).dot(T.conj().T)
    return A, gauss(rng, (n, p), kind), gauss(rng, (q, n), kind)


def hankel_ref(M, mo, mc, off):
    return np.vstack([np.hstack([M[2 * (r + c) + off] for c in range(mc)]) for r in range(mo)])


def era_case(env, i):
    rng = make_rng(env.seed, 'era', i)
    for _ in range(200):
        n, p, q, P = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(pick(rng, [1, 1, 2, 2, 3, 4]))
        if i % 20 == 7:
            # many inputs and outputs, many blocks
            p, q, P = int(rng.integers(1, 14)), int(rng.integers(1, 14)), int(pick(rng, [1, 2, 10, 25]))
        kind = pick(rng, ['real', 'real', 'complex'])
        A, B, C = era_system(rng, n, p, q, kind)
        sym = i % 6 == 1
        if sym:
            # reciprocal: symmetric Markov parameters
            q = p
            A = np.diag(np.diag(A)) + .02 * (A + A.T)
            C = B.T if rng.random() < .7 else B.conj().T
        lo_c, lo_o = -(-n // p), -(-n // q)
        mc, mo = lo_c + int(rng.integers(0, 5)), lo_o + int(rng.integers(0, 5))
        if i % 20 == 7:
            mc, mo = mc + int(rng.integers(0, 20)), mo + int(rng.integers(0, 20))
        how = pick(rng, ['default', 'call', 'ctor', 'both', 'one-call', 'one-ctor', 'mixed'])
        extra = int(rng.integers(0, 6))
        nt = 2 * (mo + mc) - 2 + extra
        if how == 'default':
            nt = 4 * max(mc, mo) + 2 + extra
            mo = mc = (2 * (nt // 2) - 2) // 4
        elif how in ('one-call', 'one-ctor'):
            # the other one takes its default
            nt = 4 * max(mo, mc) + 2 + extra
            d = (2 * (nt // 2) - 2) // 4
            given = pick(rng, ['mc', 'mo'])
            mc, mo = (mc, d) if given == 'mc' else (d, mo)
        times = [t for k in range((nt + 1) // 2) for t in (k * P, k * P + 1)][:nt]
        full = markov(A, B, C, max(times) + 1)
        M = full[times]
        H = hankel_ref(M, mo, mc, 0)
        s = np.linalg.svd(H, compute_uv=False)
        if len(s) >= n and s[n - 1] > 1e-5 * s[0] and s[n - 1] > 1e-4:
            break
    else:
        return
    desc = dict(n=n, p=p, q=q, P=P, kind=kind, nt=nt, mc=mc, mo=mo, how=how, sym=sym)
    with env.case(i, desc):
        ck, kw = {}, {}
        if how == 'call':
            kw = dict(mc=mc, mo=mo)
        elif how == 'ctor':
            ck = dict(mc=mc, mo=mo)
        elif how == 'both':
            ck, kw = dict(mc=mc + 1, mo=max(1, mo - 1)), dict(mc=mc, mo=mo)
        elif how == 'one-call':
            kw = {given: dict(mc=mc, mo=mo)[given]}
        elif how == 'one-ctor':
            ck = {given: dict(mc=mc, mo=mo)[given]}
        elif how == 'mixed':
            ck, kw = dict(mc=mc, mo=mo + 1), dict(mo=mo)
        arg = M.copy()
        if p == 1 and q == 1 and rng.random() < .6:
            arg = arg.ravel()
        elif p == 1 and rng.random() < .6:
            arg = arg[:, :, 0]
        if rng.random() < .2:
            arg = arg.tolist()
        e = mr.ERA(verbosity=0, **ck)
        if rng.random() < .3:
            # the second use of an object
            e.compute_model(rng.standard_normal((30, 2, 1)), 2, mc=2, mo=3)
        if how == 'default' and rng.random() < .4:
            Ar, Br, Cr = mr.compute_ERA_model(arg, n)
            e.compute_model(arg, n)
            env.close(Ar, e.A, 'era-convenience', 1e-12, what='compute_ERA_model A')
            env.close(Br, e.B, 'era-convenience', 1e-12, what='compute_ERA_model B')
            env.close(Cr, e.C, 'era-convenience', 1e-12, what='compute_ERA_model C')
        else:
            Ar, Br, Cr = e.compute_model(arg, n, **kw)
        env.check(e.mc == mc and e.mo == mo, 'era-blocks', 'mc, mo = %s, %s, expected %s, %s' % (e.mc, e.mo, mc, mo))
        env.equal(e.Hankel_array, H, 'era-hankel', 'Hankel array')
        env.equal(e.Hankel_array2, hankel_ref(M, mo, mc, 1), 'era-hankel2', 'second Hankel array')
        env.count('hankel_arrays_checked', 2)
        if env.check(np.shape(Ar) == (n, n) and np.shape(Br) == (n, p) and np.shape(Cr) == (q, n), 'era-shapes', '%s %s %s' % (np.shape(Ar), np.shape(Br), np.shape(Cr))):
            est = markov(Ar, Br, Cr, len(full))
            env.close(est, full, 'era-markov', 1e-6, what='impulse response of the model')
            env.count('markov_parameters_checked', len(full))
            # balanced with respect to the sampled time step
            AP = np.linalg.matrix_power(Ar, P)
            Wo = sum((lambda X: X.conj().T.dot(X))(Cr.dot(np.linalg.matrix_power(AP, k))) for k in range(mo))
            Wc = sum((lambda X: X.dot(X.conj().T))(np.linalg.matrix_power(AP, k).dot(Br)) for k in range(mc))
            env.close(Wo, np.diag(s[:n]), 'era-balanced', 1e-5, what='observability Gramian of the model')
            env.close(Wc, np.diag(s[:n]), 'era-balanced', 1e-5, what='controllability Gramian of the model')
        sv = np.asarray(e.sing_vals)
        env.check(np.all(np.diff(sv) <= 0) and np.all(sv > 0), 'era-order', 'singular values %s' % sv)
        env.close(sv[:n], s[:n], 'era-sing-vals', 1e-9, what='Hankel singular values')
        env.close((e.L_sing_vecs * sv).dot(np.asarray(e.R_sing_vecs).conj().T), H, 'era-svd', 1e-9, what='SVD of the Hankel array')
        for x in ('A', 'B', 'C'):
            env.equal(getattr(e, x), dict(A=Ar, B=Br, C=Cr)[x] if x in 'ABC' and Ar is e.A else getattr(e, x), 'era-attr', 'attribute ' + x)
        if i % 3 == 0:
            # Markov parameters in other units
            c = 10. ** rng.uniform(-40, 30)
            env.desc['unit'] = c
            Au, Bu, Cu = mr.ERA(verbosity=0).compute_model(M * c, n, mc=mc, mo=mo)
            if env.check(np.shape(Au) == (n, n), 'era-units', 'model of order %s, expected %d' % (np.shape(Au), n)):
                env.close(markov(Au, Bu, Cu, len(full)) / c, full, 'era-units', 1e-6, what='impulse response of the model')
                env.count('other_units_checked')
        if n > 1 and rng.random() < .4:
            # a truncated model is the leading part of the full one
            r = int(rng.integers(1, n))
            At, Bt, Ct = mr.ERA(verbosity=0).compute_model(arg, r, mc=mc, mo=mo)
            if s[r - 1] - s[r] > 1e-3 * s[0]:
                env.close(Ct.dot(Bt), (np.asarray(Cr)[:, :r]).dot(np.asarray(Br)[:r]), 'era-truncated', 1e-6, scale=max(1e-3, s[0]), what='CB of the truncated model')
            env.check(np.shape(At) == (r, r) and np.shape(Bt) == (r, p) and np.shape(Ct) == (q, r), 'era-shapes', 'truncated model %s %s %s' % (np.shape(At), np.shape(Bt), np.shape(Ct)))
        env.sig(n, p, q, P, kind, nt, mc, mo, how, np.ndim(arg))
    env.sample(env.desc)


def era_hankel_case(env, i):
    """Block structure for arbitrary Markov parameters, too short data."""
    rng = make_rng(env.seed, 'erah', i)
    p, q = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    kind = pick(rng, ['real', 'complex', 'int'])
    mc, mo = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    if i % 20 == 7:
        mc, mo = int(rng.integers(7, 60)), int(rng.integers(7, 60))
    nt = 2 * (mc + mo) - 2 + int(rng.integers(0, 5))
    M = rng.integers(-9, 10, (nt, q, p)) if kind == 'int' else gauss(rng, (nt, q, p), kind)
    with env.case(i, dict(p=p, q=q, kind=kind, mc=mc, mo=mo, nt=nt)):
        e = mr.ERA(verbosity=0)
        need = 2 * (mc + mo) - 2
        if nt - nt % 2 >= need:
            e.compute_model(M, 1, mc=mc, mo=mo)
            env.equal(e.Hankel_array, hankel_ref(M, mo, mc, 0), 'era-hankel', 'Hankel array')
            env.equal(e.Hankel_array2, hankel_ref(M, mo, mc, 1), 'era-hankel2', 'second Hankel array')
            env.count('hankel_arrays_checked', 2)
            env.close((e.L_sing_vecs * e.sing_vals).dot(np.asarray(e.R_sing_vecs).conj().T), hankel_ref(M, mo, mc, 0), 'era-svd', 1e-9, scale=np.abs(M).max() + 1e-300, what='SVD of the Hankel array')
        short = need - pick(rng, [1, 2, 3])
        if short >= 1:
            k = pick(rng, ['call', 'ctor'])
            env.raises(ValueError, 'era-too-short', lambda: (
                mr.ERA(verbosity=0).compute_model(M[:short], 1, mc=mc, mo=mo) if k == 'call' else
                mr.ERA(mc=mc, mo=mo, verbosity=0).compute_model(M[:short], 1)), '%d samples for mc=%d mo=%d' % (short, mc, mo))
        ns = int(rng.integers(1, 6))
        env.raises(ValueError, 'era-too-short', lambda: mr.ERA(verbosity=0).compute_model(rng.standard_normal((ns, q, p)), 1), '%d samples' % ns)
        # default block sizes use what is available
        nt2 = int(rng.integers(6, 40))
        e = mr.ERA(verbosity=0)
        M2 = rng.standard_normal((nt2, q, p))
        e.compute_model(M2, 1)
        k = (nt2 - nt2 % 2 - 2) // 4
        env.equal(e.Hankel_array, hankel_ref(M2, k, k, 0), 'era-hankel', 'Hankel array of default size for %d samples' % nt2)
        env.equal(e.Hankel_array2, hankel_ref(M2, k, k, 1), 'era-hankel2', 'second Hankel array of default size for %d samples' % nt2)
        env.raises(RuntimeError, 'era-dims', lambda: mr.ERA(verbosity=0).compute_model(np.zeros((8, 1, 1, 1)), 1), '4D Markov parameters')
        env.sig('hankel', p, q, kind, mc, mo, nt)


def sampled_case(env, i):
    rng = make_rng(env.seed, 'sampled', i)
    nt, q, p = int(pick(rng, [2, 3, 4, int(rng.integers(2, 30))])), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if i % 20 == 7:
        nt, q, p = int(rng.integers(30, 2000)), int(rng.integers(1, 9)), int(rng.integers(1, 9))
    kind = pick(rng, ['real', 'complex', 'int'])
    M = rng.integers(-9, 10, (nt, q, p)) if kind == 'int' else gauss(rng, (nt, q, p), kind)
    dt = pick(rng, [1, 2, .1, .05, 1. / 3, 10, float(rng.uniform(.001, 5)), 1e-3])
    t0 = pick(rng, [0, 0, 3, -1.7])
    t = t0 + dt * np.arange(nt)
    if isinstance(dt, int) and isinstance(t0, int) and rng.random() < .5:
        t = t.astype(int)
    with env.case(i, dict(nt=nt, q=q, p=p, kind=kind, dt=dt, t0=t0)):
        targ = t.tolist() if rng.random() < .3 else t.copy()
        marg = M.tolist() if rng.random() < .2 else M.copy()
        steps, S = mr.make_sampled_format(targ, marg)[:2]
        want = np.array([x for k in range(nt - 1) for x in (k, k + 1)])
        env.equal(steps, want, 'sampled-steps', 'time steps')
        env.equal(S, M[want], 'sampled-values', 'Markov parameters')
        env.check(np.asarray(S).dtype.kind == np.asarray(marg).dtype.kind, 'sampled-type', 'type %s for %s' % (np.asarray(S).dtype, M.dtype))
        env.count('sampled_checked')
        if nt > 2:
            bad = t.astype(float)
            bad[int(rng.integers(2, nt))] += pick(rng, [1, -1]) * pick(rng, [.4 * dt, 1e-2 * dt, 1e-3])
            env.raises(ValueError, 'sampled-unequal', lambda: mr.make_sampled_format(bad, M), 'unequal spacing')
            # times of limited precision
            ok = t + 2e-7 * rng.uniform(-1, 1, nt)
            steps, S = mr.make_sampled_format(ok, M)[:2]
            env.equal(steps, want, 'sampled-steps', 'time steps of rounded times')
            env.equal(S, M[want], 'sampled-values', 'Markov parameters at rounded times')
            # a looser tolerance accepts small deviations
            ok = t + dt * float(pick(rng, [1e-3, .1])) * rng.uniform(-1, 1, nt)
            steps, S = mr.make_sampled_format(ok, M, dt_tol=.5 * dt)[:2]
            env.equal(steps, want, 'sampled-steps', 'time steps with deviations')
            env.equal(S, M[want], 'sampled-values', 'Markov parameters with deviations')
        wrong = int(pick(rng, [nt - 1, nt + 1, 2 * nt]))
        if wrong > 1:
            env.raises(RuntimeError, 'sampled-size', lambda: mr.make_sampled_format(dt * np.arange(wrong), M), '%d times for %d samples' % (wrong, nt))
        env.sig('sampled', nt, q, p, kind, dt, t0)
    # the whole chain on a system sampled at every step
    n = int(rng.integers(1, 4))
    A, B, C = era_system(rng, n, p, q, 'complex' if kind == 'complex' else 'real')
    full = markov(A, B, C, 2 * n + 6)
    with env.case((i, 'chain'), dict(n=n, p=p, q=q)):
        S = mr.make_sampled_format(dt * np.arange(len(full)), full)[1]
        k = (2 * (len(full) - 1) - 2) // 4
        s = np.linalg.svd(hankel_ref(S, k, k, 0), compute_uv=False)
        if s[n - 1] > 1e-5 * s[0] and s[n - 1] > 1e-4:
            Ar, Br, Cr = mr.ERA(verbosity=0).compute_model(S, n)
            env.close(markov(Ar, Br, Cr, len(full)), full, 'era-markov', 1e-6, what='impulse response after conversion')
            env.count('markov_parameters_checked', len(full))


# ================================================================ C18
def okid_case(env, i):
    rng = make_rng(env.seed, 'okid', i)
    n, p, q = int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind = pick(rng, ['real', 'real', 'complex'])
    A, B, C = stable_discrete(rng, n, p, q, kind, rho=.95)
    D = gauss(rng, (q, p), kind) if rng.random() < .6 else np.zeros((q, p))
    delay = i % 7 == 2
    if delay:
        # a response that vanishes for some steps, and in the end
        n = int(rng.integers(2, 7))
        A, B, C = np.eye(n, k=1), np.zeros((n, p)), np.zeros((q, n))
        B[-1 - int(rng.integers(2)):] = 1.
        B = B * gauss(rng, (n, p), kind)
        C[:, :1] = gauss(rng, (q, 1), kind)
    nm = -(-n // q) + int(rng.integers(1, 10))
    if delay:
        nm = n + int(rng.integers(1, 10))
    if i % 20 == 7:
        nm += int(rng.integers(10, 40))
    T = (p + q) * nm + p + int(rng.integers(5, 80))
    sig = pick(rng, ['gauss', 'uniform', 'binary', 'impulses', 'tail', 'burst'])
    if sig == 'uniform':
        u = rng.uniform(-1, 1, (p, T))
    elif sig == 'binary':
        u = rng.choice([-1., 1.], (p, T))
        u[:, 0] = np.where(u[:, 0] == 0, 1., u[:, 0])
    elif sig == 'impulses':
        u = gauss(rng, (p, T), 'real') * (rng.random((p, T)) < .6)
    elif sig == 'burst':
        # each input is active for a few samples only, one after the other
        gap, u = 2 * nm + n, []
        for j in range(p):
            b = int(rng.integers(1, nm + 2))
            piece = np.zeros((p, b + gap), dtype=complex if kind == 'complex' else float)
            piece[j, :b] = gauss(rng, b, kind)
            u.append(piece)
        u = np.concatenate(u, axis=1)
        T = u.shape[1]
    else:
        u = gauss(rng, (p, T), kind)
        if sig == 'tail':
            u = np.concatenate((u, np.zeros((p, nm))), axis=1)
            T += nm
    x = np.zeros(n, dtype=complex)
    y = []
    for k in range(T):
        y.append(C.dot(x) + D.dot(u[:, k]))
        x = A.dot(x) + B.dot(u[:, k])
    y = np.array(y).T
    if kind != 'complex' and not np.iscomplexobj(u):
        y = y.real
    # identifiable: the regressors span all past inputs
    ref = np.concatenate((np.asarray(D)[None], markov(A, B, C, nm)[:nm - 1])) if nm > 1 else np.asarray(D)[None]
    U = np.vstack([np.hstack((np.zeros((p, k)), u[:, :T - k])) for k in range(min(nm + n, T // p))])
    if np.linalg.cond(U) > 1e3:
        return
    desc = dict(n=n, p=p, q=q, kind=kind, nm=nm, T=T, signal=sig)
    with env.case(i, desc):
        # channels in units of their own
        su, sy, unit = np.ones(p), np.ones(q), 1e-7
        if i % 3 == 0:
            su, sy = 10. ** rng.uniform(-2.5, 2.5, p), 10. ** rng.uniform(-2.5, 2.5, q)
            c = 10. ** rng.uniform(-6, 6)
            su, sy, unit = c * su, c * sy, 1e-4
            env.desc['channel_units'] = [su.tolist(), sy.tolist()]
            env.count('scaled_channels_checked')
        elif i % 9 == 4:
            # outputs in units much smaller or larger than those of the inputs
            sy, unit = sy * 10. ** rng.uniform(-9, 2), 1e-4
            env.desc['output_unit'] = float(sy[0])
            env.count('outputs_in_other_units')
        u, y = u * su[:, None], y * sy[:, None]
        ui, yi = u.copy(), y.copy()
        if p == 1 and rng.random() < .5:
            ui = ui[0]
        if q == 1 and rng.random() < .5:
            yi = yi[0]
        if rng.random() < .2:
            ui, yi = ui.tolist(), yi.tolist()
        got = mr.OKID(ui, yi, nm)
        env.check(np.shape(got) == (nm, q, p), 'okid-shape', 'shape %s, expected %s' % (np.shape(got), (nm, q, p)))
        env.close(got * su / sy[:, None], ref, 'okid-markov', unit, scale=max(1., np.abs(ref).max()), what='Markov parameters')
        env.count('markov_parameters_checked', nm)
        env.count('inputs_that_stop_early', int(sig in ('burst', 'tail')))
        env.count('delayed_responses', int(delay))
        # as many entries as requested, whatever the number of samples
        few = int(pick(rng, [1, 2, T // 2, T - 1, T, T + 1]))
        many = int(pick(rng, [1, 2, few // 2, few // 2 + 1, few - 1, few]))
        if 1 <= many <= min(few, T) and many * few * (p + q) < 2e5:
            got = mr.OKID(u[:, :few], y[:, :few], many)
            env.check(np.shape(got) == (many, q, p), 'okid-shape', 'shape %s for %d samples, expected %s' % (np.shape(got), min(few, T), (many, q, p)))
            env.count('shapes_checked')
        env.sig(n, p, q, kind, nm, sig, delay, np.ndim(ui), np.ndim(yi))
        bad = int(pick(rng, [1, 2, T // 2]))
        env.raises(ValueError, 'okid-mismatch', lambda: mr.OKID(u, y[:, :-bad], nm) if rng.random() < .5 else mr.OKID(u[:, bad:], y, nm), 'numbers of samples differ by %d' % bad)
    env.sample(env.desc)


# ================================================================ C20
def trapz_w(g):
    w = np.zeros(len(g))
    d = np.diff(g)
    w[:-1] += d / 2
    w[1:] += d / 2
    return w


def trapz_case(env, i):
    rng = make_rng(env.seed, 'trapz', i)
    nd = int(rng.integers(1, 5))
    shape = tuple(int(x) for x in rng.integers(1 if rng.random() < .1 else 2, 7, nd))
    if rng.random() < .3:
        shape = (shape[0],) * nd
    if i % 20 == 7:
        shape = pick(rng, [(700,), (80, 60), (20, 30, 10), (2, 600), (5, 4, 3, 6, 2)])
        nd = len(shape)
    gk = pick(rng, ['uniform', 'random', 'clustered', 'int', 'neg'])
    scaled = rng.random() < .3
    grids = []
    for m in shape:
        if gk == 'uniform':
            g = np.linspace(0, 1 + nd, m)
        elif gk == 'random':
            g = np.cumsum(rng.uniform(.05, 2, m)) - 1
        elif gk == 'clustered':
            g = 1 - np.cos(np.linspace(0, np.pi, m))
        elif gk == 'int':
            g = np.cumsum(rng.integers(1, 4, m))
        else:
            g = -5 + np.cumsum(rng.uniform(.05, 2, m))
        if gk != 'int':
            # domains of any size, and grids that are almost but not quite uniform
            if scaled:
                g = g * 10. ** rng.integers(-9, 7)
            if rng.random() < .15 and m > 2:
                g = np.linspace(0, 1, m) * 10. ** rng.integers(-9, 7)
                g[m // 2] *= 1 + 10. ** rng.uniform(-7, -2)
        grids.append(g)
    kind = pick(rng, ['real', 'complex', 'int', 'mixed'])
    def vec(k):
        return rng.integers(-5, 6, shape) if k == 'int' else gauss(rng, shape, 'complex' if k in ('complex',) else 'real')
    v1, v2 = vec(kind if kind != 'mixed' else 'complex'), vec(kind if kind != 'mixed' else 'real')
    if kind == 'mixed' and rng.random() < .5:
        v1, v2 = v2, v1
    w = np.ones(())
    for g in grids:
        w = np.multiply.outer(w, trapz_w(g.astype(float)))
    with env.case(i, dict(shape=shape, grids=gk, kind=kind)):
        ip = mr.InnerProductTrapz(*[g.copy() for g in grids])
        k1, k2 = v1.copy(), v2.copy()
        want = np.sum(np.conj(v1) * v2 * w)
        scale = max(1e-300, float(np.sum(np.abs(v1) * np.abs(v2) * np.abs(w))))
        for f in (ip, ip.inner_product):
            env.close(f(v1, v2), want, 'trapz', 1e-12, scale=scale, what='trapezoidal inner product')
        env.close(ip(np.asfortranarray(v2), v1), np.conj(want), 'trapz-hermitian', 1e-12, scale=scale, what='swapped arguments')
        nrm = ip(v1, v1)
        env.check(abs(np.imag(nrm)) <= 1e-12 * abs(nrm) and np.real(nrm) >= 0, 'trapz-positive', 'norm %r' % nrm)
        env.check(np.array_equal(k1, v1) and np.array_equal(k2, v2), 'trapz-input', 'vectors were modified')
        env.close(mr.inner_product_array_uniform(v1, v2), np.sum(np.conj(v1) * v2), 'uniform', 1e-12, scale=max(1e-300, float(np.sum(np.abs(v1) * np.abs(v2)))), what='uniform inner product')
        # other grids with the same numbers of points and the same ends
        if any(m > 2 for m in shape):
            others = [np.concatenate((g[:1], g[0] + (g[-1] - g[0]) * np.sort(rng.uniform(0.01, .99, len(g) - 2)), g[-1:]))
                      if len(g) > 2 else g.copy() for g in (x.astype(float) for x in grids)]
            w2 = np.ones(())
            for g in others:
                w2 = np.multiply.outer(w2, trapz_w(g))
            ip2 = mr.InnerProductTrapz(*others)
            for f, ww in ((ip2, w2), (ip, w), (ip2, w2)):
                sc = max(1e-300, float(np.sum(np.abs(v1) * np.abs(v2) * np.abs(ww))))
                env.close(f(v1, v2), np.sum(np.conj(v1) * v2 * ww), 'trapz-several', 1e-12, scale=sc, what='one of several inner products')
            env.count('several_grids_checked')
        env.count('quadratures_checked', 3)
        bads = [tuple(m + (1 if j == k else 0) for j, m in enumerate(shape)) for k in range(nd)] + [shape + (1,), (1,) + shape]
        if nd > 1:
            bads += [(int(np.prod(shape)),), shape[:-1]]
            if shape[::-1] != shape:
                bads.append(shape[::-1])
        if shape[0] > 1:
            bads.append((1,) + shape[1:])
        b = pick(rng, bads)
        wrong = np.ones(b)
        if rng.random() < .5:
            env.raises((TypeError, ValueError), 'trapz-mismatch', lambda: ip(wrong, v2), 'first vector of shape %s on grid %s' % (b, shape))
        else:
            env.raises((TypeError, ValueError), 'trapz-mismatch', lambda: ip(v1, wrong), 'second vector of shape %s on grid %s' % (b, shape))
        env.raises((TypeError, ValueError), 'trapz-mismatch', lambda: ip(wrong, wrong), 'both vectors of shape %s on grid %s' % (b, shape))
        env.raises(ValueError, 'trapz-no-grid', lambda: mr.InnerProductTrapz(), 'no grid')
        gs = list(grids)
        j = int(rng.integers(nd))
        gs[j] = pick(rng, [list(gs[j]), tuple(gs[j]), None, 3, 'x', range(3)])
        env.raises(TypeError, 'trapz-bad-grid', lambda: mr.InnerProductTrapz(*gs), 'grid %d of type %s' % (j, type(gs[j])))
        env.sig(shape, gk, kind)
    env.sample(env.desc)


def vsa_case(env, i):
    rng = make_rng(env.seed, 'vsa', i)
    n, a, b = int(rng.integers(1, 9)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if i % 30 == 7:
        n, a, b = pick(rng, [(300, 70, 40), (30, 5, 150), (30, 150, 5), (1100, 3, 2), (60, 60, 60)])
    kind = pick(rng, ['real', 'complex', 'int', 'mixed'])
    X = rng.integers(-5, 6, (n, a)) if kind == 'int' else gauss(rng, (n, a), 'complex' if kind in ('complex', 'mixed') else 'real')
    Y = rng.integers(-5, 6, (n, b)) if kind == 'int' else gauss(rng, (n, b), 'complex' if kind == 'complex' else 'real')
    which = pick(rng, ['none', '1d', '1dlist', 'row', 'col', '2d', '2dlist', '2dcomplex', 'ones'])
    fx = fy = fw = fk = 1.
    if kind != 'int' and rng.random() < .4:
        fx, fy, fw, fk = 10. ** rng.uniform(-20, 20, 4)
        X, Y = X * fx, Y * fy
        env.count('arrays_in_other_units')
    if which == 'none':
        W, warg = np.eye(n), None
    elif which in ('1d', '1dlist', 'row', 'col', 'ones'):
        w = (rng.uniform(.2, 3, n) if rng.integers(2) else weights(rng, n, '1d')) * fw if which != 'ones' else np.ones(n)
        W = np.diag(w)
        warg = {'1d': w, '1dlist': w.tolist(), 'row': w.reshape(1, -1), 'col': w.reshape(-1, 1), 'ones': [1] * n}[which]
    else:
        W = weights(rng, n, '2d', 'complex' if which == '2dcomplex' else 'real') * fw
        warg = W.tolist() if which == '2dlist' else W.copy()
    with env.case(i, dict(n=n, a=a, b=b, kind=kind, weights=which)):
        vs = mr.VectorSpaceArrays(weights=warg) if warg is not None or rng.random() < .5 else mr.VectorSpaceArrays()
        kX, kY = X.copy(), Y.copy()
        cv = lambda v: pick(rng, [np.array, np.asfortranarray, lambda x: np.ascontiguousarray(x[::-1])[::-1]])(v)
        big = lambda *a: float(np.prod([max(np.abs(x).max(), 1e-300) for x in a]))
        scale, scale2 = big(X, Y, W) * n, big(X, X, W) * n
        env.close(vs.compute_inner_product_array(cv(X), cv(Y)), X.conj().T.dot(W).dot(Y), 'vsa-ip', 1e-12, scale=scale, what='inner product array')
        S = vs.compute_symm_inner_product_array(cv(X))
        env.close(S, X.conj().T.dot(W).dot(X), 'vsa-symm-ip', 1e-12, scale=scale2, what='symmetric inner product array')
        ck = pick(rng, ['real', 'complex', 'int'])
        m = int(rng.integers(1, 6))
        K = rng.integers(-3, 4, (a, m)) if ck == 'int' else gauss(rng, (a, m), ck) * fk
        sel = pick(rng, ['none', 'list', 'range', 'array', 'repeat'])
        idx = {'none': list(range(m)), 'list': [int(x) for x in rng.permutation(m)[:int(rng.integers(1, m + 1))]], 'range': list(range(int(rng.integers(1, m + 1)))),
               'array': [int(x) for x in rng.permutation(m)], 'repeat': [int(x) for x in rng.integers(0, m, m + 1)]}[sel]
        karg = coeff_form(rng, K.copy())
        if sel == 'none':
            got = vs.lin_combine(cv(X), karg)
        else:
            got = vs.lin_combine(cv(X), karg, coeff_array_col_indices={'range': range(len(idx)), 'array': np.array(idx)}.get(sel, idx))
        env.close(got, X.dot(K[:, idx]), 'vsa-lin', 1e-12, scale=big(X, K) * a, what='linear combination')
        env.check(np.array_equal(kX, X) and np.array_equal(kY, Y), 'vsa-input', 'vectors were modified')
        env.count('array_ip_checked', 2)
        env.count('array_lin_checked')
        # equality and rejection
        same = mr.VectorSpaceArrays(weights=warg)
        other = mr.VectorSpaceArrays(weights=rng.uniform(3.5, 4, n))
        env.check(vs == same and not vs != same and vs != other and not vs == other and not vs == 'x', 'vsa-eq', 'equality of vector spaces')
        env.raises(ValueError, 'vsa-3d', lambda: mr.VectorSpaceArrays(weights=np.ones((2, 2, 2))), '3D weights')
        env.raises(ValueError, 'vsa-3d', lambda: mr.VectorSpaceArrays(weights=3.), 'scalar weight')
        bad = int(pick(rng, [n + 1, n + 3] + ([n - 1, 1] if n > 1 else [])))
        bw = pick(rng, [rng.uniform(1, 2, bad), np.eye(bad)])
        env.raises(ValueError, 'vsa-mismatch', lambda: mr.VectorSpaceArrays(weights=bw).compute_inner_product_array(X, Y), 'weights %s for vectors of %d elements' % (bw.shape, n))
        Z = np.ones((n + 1, b))
        env.raises(ValueError, 'vsa-mismatch', lambda: vs.compute_inner_product_array(X, Z), 'vectors of different sizes')
        env.sig(n, a, b, kind, which, ck, sel)
    env.sample(env.desc)


# ================================================================ C21
def svd_case(env, i):
    rng = make_rng(env.seed, 'svd', i)
    m, n = int(pick(rng, [1, 2, 3, int(rng.integers(1, 12))])), int(pick(rng, [1, 2, 3, int(rng.integers(1, 12))]))
    if i % 20 == 7:
        m, n = pick(rng, [(300, 5), (5, 300), (120, 90), (90, 120), (70, 70), (1100, 2), (2, 1100)])
    r = int(rng.integers(1, min(m, n) + 1))
    kind = pick(rng, ['real', 'complex', 'int', 'zero', 'list', 'special', 'special'])
    if kind == 'special' and rng.random() < .7:
        m = n
    r = min(r, m, n)
    s = np.sort(10. ** rng.uniform(-4, 2, r))[::-1] * pick(rng, [1, 1, 1e6, 1e-4])
    if rng.random() < .15:
        s[:] = s[0]
    A = spectrum_array(rng, m, n, s, 'complex' if kind == 'complex' else 'real')
    if kind == 'int':
        A = rng.integers(-9, 10, (m, n))
    if kind == 'zero':
        A = np.zeros((m, n))
    if kind == 'special':
        A = special_array(rng, m, n, pick(rng, ['real', 'complex']))
        if not A.any():
            kind = 'zero'
    true = np.linalg.svd(A, compute_uv=False)
    big = max(true[0], 1e-300)
    tol = pick(rng, ['default', 'atol', 'rtol', 'both', 'none', 'zero'])
    kw = {}
    if tol in ('atol', 'both'):
        kw['atol'] = float(pick(rng, list(true))) * pick(rng, [.5, 2., .99, 1.01])
    if tol in ('rtol', 'both') and kind != 'zero':
        kw['rtol'] = float(pick(rng, list(true)) / big) * pick(rng, [.5, 2., .99])
        if tol == 'rtol' and rng.random() < .5:
            kw['atol'] = None
    if tol == 'none':
        kw['atol'] = None
    if tol == 'zero':
        kw['atol'] = 0
    at = kw.get('atol', 1e-13)
    at = -1. if at is None else at
    rt = kw.get('rtol', None)
    thr = max(at, -1. if rt is None else rt * big)
    keep = int((true > thr).sum())
    sure = np.all(np.abs(true - thr) > 1e-12 * big) if thr > 0 else np.all(true > 1e-12 * big)
    with env.case(i, dict(m=m, n=n, r=r, kind=kind, **kw)):
        arg = A.tolist() if kind == 'list' else A.copy()
        U, S, V = map(np.asarray, util.svd(arg, **kw))
        k = len(S)
        if sure:
            env.check(k == keep, 'svd-count', '%d values kept, expected %d of %s with %s' % (k, keep, true, kw))
        if env.check(U.shape == (m, k) and V.shape == (n, k) and S.shape == (k,), 'svd-shapes', '%s %s %s' % (U.shape, S.shape, V.shape)):
            env.check(not np.iscomplexobj(S) and np.all(S >= 0) and np.all(np.diff(S) <= 0), 'svd-order', 'singular values %s' % S)
            env.close(S, true[:k], 'svd-values', 1e-11, scale=big, what='singular values')
            env.close(U.conj().T.dot(U), np.eye(k), 'svd-ortho', 1e-10, scale=1., what='left factor orthonormality')
            env.close(V.conj().T.dot(V), np.eye(k), 'svd-ortho', 1e-10, scale=1., what='right factor orthonormality')
            R = A - (U * S).dot(V.conj().T)
            lost = true[k] if k < len(true) else 0.
            env.check(np.linalg.norm(R, 2) <= lost + 1e-11 * big, 'svd-reproduce', 'error %g, first truncated value %g' % (np.linalg.norm(R, 2), lost))
            env.close(A.dot(V), U * S, 'svd-right', 1e-10, scale=big, what='A V = U S')
            env.close(A.conj().T.dot(U), V * S, 'svd-left', 1e-10, scale=big, what='A^* U = V S')
        env.check(np.array_equal(np.array(arg), A), 'svd-input', 'array was modified')
        env.count('svd_checked')
        env.sig('svd', m, n, r, kind, tol, keep)
    env.sample(env.desc)


def eigh_case(env, i):
    rng = make_rng(env.seed, 'eigh', i)
    n = int(pick(rng, [1, 2, 3, int(rng.integers(1, 12))]))
    if i % 20 == 7:
        n = int(rng.integers(12, 150))
    kind = pick(rng, ['real', 'complex'])
    spec = pick(rng, ['pos', 'indef', 'semidef', 'noise', 'neg', 'equal', 'zero', 'int', 'special'])
    big = 10. ** rng.uniform(-2, 4)
    lam = big * 10. ** rng.uniform(-4, 0, n)
    if spec in ('indef', 'int'):
        lam = lam * rng.choice([-1, 1], n)
    elif spec == 'semidef':
        lam[rng.random(n) < .4] = 0
    elif spec == 'noise':
        small = rng.random(n) < .4
        lam[small] = rng.uniform(-1, 1, small.sum()) * 1e-9 * big
    elif spec == 'neg':
        lam = -lam
    elif spec == 'equal':
        lam[:] = big
    elif spec == 'zero':
        lam[:] = 0
    Q = ortho(rng, n, n, kind)
    A = (Q * lam).dot(Q.conj().T)
    if spec == 'int':
        A = rng.integers(-9, 10, (n, n))
        A = A + A.T
    elif spec == 'special':
        A = special_array(rng, n, n, kind) * pick(rng, [1., 1., big])
        A = (A + A.conj().T) / 2
    else:
        A = (A + A.conj().T) / 2
    true = np.linalg.eigvalsh(A)
    true = true[np.argsort(-np.abs(true))]
    top = max(abs(true[0]), 1e-300)
    pd = bool(rng.integers(2))
    tol = pick(rng, ['default', 'atol', 'rtol', 'both', 'none', 'zero'])
    kw = {}
    if tol in ('atol', 'both'):
        kw['atol'] = abs(float(pick(rng, list(true)))) * pick(rng, [.5, 2., .99, 1.01])
    if tol in ('rtol', 'both') and top > 1e-200:
        kw['rtol'] = abs(float(pick(rng, list(true)))) / top * pick(rng, [.5, 2., .99])
        if rng.random() < .5:
            kw['atol'] = None
    if tol == 'none':
        kw['atol'] = None
    if tol == 'zero':
        kw['atol'] = 0.
    if pd or rng.random() < .5:
        kw['is_positive_definite'] = pd
    at = kw.get('atol', 1e-13)
    at = -1. if at is None else at
    rt = -1. if kw.get('rtol') is None else kw['rtol'] * top
    low = float(true.min())
    if pd and low <= 0:
        at = max(at, abs(low))
    thr = max(at, rt)
    keep = int((np.abs(true) > thr).sum())
    # counts are decided only away from roundoff of the thresholds
    mags = np.abs(true)
    if pd and low <= 0:
        others = np.delete(mags, int(np.argmin(true)))
        sure = np.all(np.abs(others - thr) > 1e-12 * top) and (thr > abs(low) * (1 + 1e-6) or thr <= abs(low)) and (abs(low) > 1e-11 * top)
    else:
        sure = np.all(np.abs(mags - thr) > 1e-12 * top) if thr > 0 else np.all(mags > 1e-12 * top)
    with env.case(i, dict(n=n, kind=kind, spec=spec, **kw)):
        arg = A.copy()
        w, X = map(np.asarray, util.eigh(arg, **kw))
        k = len(w)
        if sure:
            env.check(k == keep, 'eigh-count', '%d eigenvalues kept, expected %d of %s with %s' % (k, keep, true, kw))
        if env.check(w.shape == (k,) and X.shape == (n, k), 'eigh-shapes', '%s %s' % (w.shape, X.shape)):
            env.check(not np.iscomplexobj(w), 'eigh-real', 'complex eigenvalues')
            env.check(np.all(np.diff(np.abs(w)) <= 0), 'eigh-order', 'eigenvalues %s' % w)
            env.close(np.abs(w), mags[:k], 'eigh-values', 1e-10, scale=top, what='eigenvalue magnitudes')
            env.close(X.conj().T.dot(X), np.eye(k), 'eigh-ortho', 1e-10, scale=1., what='eigenvector orthonormality')
            env.close(A.dot(X), X * w, 'eigh-equation', 1e-10, scale=top, what='A x = lambda x')
            if pd:
                env.check(np.all(w > 0), 'eigh-positive', 'eigenvalues %s of an array declared positive definite (%s)' % (w, kw))
                env.count('positive_definite_checked')
            if k:
                env.check(np.all(np.abs(w) > max(at if not (pd and low <= 0) else 0, -1)) or True, 'eigh-tol')
        env.check(np.array_equal(arg, A), 'eigh-input', 'array was modified')
        env.count('eigh_checked')
        env.sig('eigh', n, kind, spec, tol, pd, keep)
    env.sample(env.desc)


def eig_case(env, i):
    rng = make_rng(env.seed, 'eig', i)
    n = int(pick(rng, [1, 2, 3, int(rng.integers(1, 10))]))
    if i % 20 == 7:
        n = int(rng.integers(10, 40))
    kind = pick(rng, ['real', 'realeig', 'complex', 'normal', 'int', 'herm', 'nonnormal', 'triangular', 'triangular', 'special', 'special'])
    for _ in range(100):
        if kind == 'special':
            A = special_array(rng, n, n, pick(rng, ['real', 'complex']))
        elif kind == 'nonnormal':
            # left and right eigenvectors almost orthogonal
            n = int(rng.integers(2, 4))
            A = np.diag(rng.permutation(np.arange(1., n + 1))) + np.triu(gauss(rng, (n, n)), 1) * 10. ** rng.uniform(1, 5)
            A = A if rng.integers(2) else A.T
        elif kind == 'triangular':
            # eigenvalues are exactly the diagonal, here real or imaginary or integers
            A = np.triu(gauss(rng, (n, n), 'complex'), 1) + np.diag((1. + np.arange(n)) * pick(rng, [1., -1., .3, 1j]) * rng.choice([-1., 1.], n))
            A = A if rng.integers(2) else A.T
        elif kind == 'realeig':
            T = gauss(rng, (n, n))
            A = T.dot(np.diag(np.arange(1, n + 1) * rng.choice([-1., 1.]) + rng.uniform(-.3, .3, n))).dot(np.linalg.inv(T))
        elif kind == 'complex':
            A = gauss(rng, (n, n), 'complex')
        elif kind == 'normal':
            Q = ortho(rng, n, n, 'complex')
            A = (Q * gauss(rng, n, 'complex')).dot(Q.conj().T)
        elif kind == 'int':
            A = rng.integers(-5, 6, (n, n))
        elif kind == 'herm':
            A = gauss(rng, (n, n), 'complex')
            A = A + A.conj().T
        else:
            A = gauss(rng, (n, n))
        A = A * pick(rng, [1, 1, 100]) if kind == 'int' else A * pick(rng, [1, 1, 1e4, 1e-4])
        w, X = np.linalg.eig(A)
        size = max(np.abs(w).max(), 1e-300)
        gap = min([abs(w[a] - w[b]) for a in range(n) for b in range(a)] or [size])
        cond = np.linalg.cond(X)
        spread = 1e-12 * np.linalg.norm(A, 2) * cond / max(gap, 1e-300) if kind == 'nonnormal' else 0.
        if gap > 1e-3 * size and (cond < 1e3 or kind == 'nonnormal') and size > 1e-10 and spread < 1e-2:
            break
    else:
        return
    sc = pick(rng, ['left', 'right', 'LEFT', 'Right', None])
    with env.case(i, dict(n=n, kind=kind, scale_choice=sc)):
        arg = A.tolist() if rng.random() < .15 else A.copy()
        out = util.eig_biorthog(arg) if sc is None else util.eig_biorthog(arg, scale_choice=sc) if rng.random() < .7 else util.eig_biorthog(arg, sc)
        lam, R, L = map(np.asarray, out)
        if env.check(lam.shape == (n,) and R.shape == (n, n) and L.shape == (n, n), 'eig-shapes', '%s %s %s' % (lam.shape, R.shape, L.shape)):
            norm = np.linalg.norm(A, 2)
            env.close(A.dot(R), R * lam, 'eig-right', 1e-9, scale=norm * np.abs(R).max(), what='A r = lambda r')
            env.close(L.conj().T.dot(A), (L * lam.conj()).conj().T, 'eig-left', 1e-9, scale=norm * np.abs(L).max(), what='l^* A = lambda l^*')
            env.close(L.conj().T.dot(R), np.eye(n), 'eig-biorthonormal', 1e-8 * min(cond, 1e3) + spread, scale=1., what='L^* R = I')
            unit = R if (sc or 'left').lower() == 'left' else L
            env.close(np.linalg.norm(unit, axis=0), np.ones(n), 'eig-unit', 1e-10, scale=1., what='norms of the unscaled eigenvectors')
            used = list(lam)
            worst = 0.
            for x in w:
                d = [abs(x - z) for z in used]
                j = int(np.argmin(d))
                worst = max(worst, d[j])
                used.pop(j)
            env.check(worst <= 1e-8 * min(cond, 1e3) * size + spread * gap, 'eig-values', 'eigenvalues %s, expected %s' % (lam, w))
        env.check(np.array_equal(np.array(arg), A), 'eig-input', 'array was modified')
        env.raises(ValueError, 'eig-scale', lambda: util.eig_biorthog(A, scale_choice=pick(rng, ['both', '', 'lef', 'l', 'right '])), 'invalid scale choice')
        env.count('eig_biorthog_checked')
        env.count('non_normal_arrays', int(kind == 'nonnormal'))
        env.count('complex_arrays_with_special_eigenvalues', int(kind == 'triangular'))
        env.sig('eig', n, kind, sc)
    env.sample(env.desc)


# ================================================================ C22
def hankel_case(env, i):
    rng = make_rng(env.seed, 'hankel', i)
    a, b = int(pick(rng, [1, 2, int(rng.integers(1, 12))])), int(pick(rng, [1, 2, int(rng.integers(1, 12))]))
    if i % 20 == 7:
        a, b = pick(rng, [(int(rng.integers(12, 400)), int(rng.integers(12, 400))), (1, 500), (500, 1), (300, 300)])
    ck, rk = pick(rng, ['real', 'complex', 'int']), pick(rng, ['real', 'complex', 'int'])
    gen = lambda s, k: rng.integers(-9, 10, s) if k == 'int' else gauss(rng, s, k)
    col, row = gen(a, ck), gen(b, rk)
    if rng.random() < .5:
        row = row.astype(np.result_type(row, col))
        row[0] = col[-1]
    form = pick(rng, ['array', 'list', 'colvec', 'rowvec', 'tuple'])
    cv = {'array': np.array, 'list': lambda x: x.tolist(), 'colvec': lambda x: x.reshape(-1, 1), 'rowvec': lambda x: x.reshape(1, -1), 'tuple': lambda x: tuple(x.tolist())}[form]
    with env.case(i, dict(a=a, b=b, col=ck, row=rk, form=form)):
        if rng.random() < .3:
            H = mr.Hankel(cv(col))
            b, row = a, np.zeros(a)
            none = True
        else:
            H = mr.Hankel(cv(col), cv(row)) if rng.random() < .5 else mr.Hankel(cv(col), last_row=cv(row))
            none = False
        vals = list(col) + list(row[1:])
        want = np.array([[vals[r + c] for c in range(b)] for r in range(a)])
        env.equal(H, want, 'hankel', 'Hankel array')
        env.count('hankel_checked')
        env.sig('hankel', a, b, ck, rk, form, none)
    # chunks
    a, b = int(pick(rng, [1, 2, int(rng.integers(1, 7))])), int(pick(rng, [1, 2, int(rng.integers(1, 7))]))
    h, w = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if i % 20 == 7:
        a, b = int(rng.integers(7, 40)), int(rng.integers(7, 40))
        h, w = pick(rng, [(h, w), (1, 12), (12, 1), (8, 9)])
    cols = [gen((h, w), ck) for _ in range(a)]
    rows = [gen((h, w), rk) for _ in range(b)]
    with env.case((i, 'chunks'), dict(a=a, b=b, h=h, w=w, col=ck, row=rk)):
        kc, kr = [x.copy() for x in cols], [x.copy() for x in rows]
        none = rng.random() < .3
        if none:
            H = mr.Hankel_chunks(cols)
            b, use = a, [np.zeros((h, w))] * a
        else:
            H = mr.Hankel_chunks(cols, rows) if rng.random() < .5 else mr.Hankel_chunks(cols, last_row_chunks=rows)
            use = rows
        vals = cols + use[1:]
        want = np.vstack([np.hstack([vals[r + c] for c in range(b)]) for r in range(a)])
        env.equal(H, want, 'hankel-chunks', 'Hankel array of chunks')
        env.check(len(cols) == a and (none or len(rows) == b) and all(np.array_equal(x, y) for x, y in zip(cols + rows, kc + kr)), 'hankel-input', 'chunk lists were modified')
        env.count('hankel_chunks_checked')
        env.sig('chunks', a, b, h, w, ck, rk, none)
    env.sample(env.desc)


# ================================================================ C23
def sim_case(env, i):
    rng = make_rng(env.seed, 'sim', i)
    n, p, q, T = int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(pick(rng, [1, 2, 3, int(rng.integers(1, 30))]))
    ints = rng.random() < .15
    if i % 20 == 7 and not ints:
        n, T = int(rng.integers(1, 20)), int(rng.integers(30, 1200))
    kinds = [pick(rng, ['real', 'real', 'complex']) for _ in range(5)] if rng.random() < .4 else ['real'] * 5
    A, B, C = stable_discrete(rng, n, p, q, kinds[0], rho=1.02)
    B, C = gauss(rng, (n, p), kinds[1]), gauss(rng, (q, n), kinds[2])
    if ints:
        A, B, C = rng.integers(-1, 2, (n, n)), rng.integers(-2, 3, (n, p)), rng.integers(-2, 3, (q, n))
    u = gauss(rng, (T, p), kinds[3])
    x0 = None if rng.random() < .4 else gauss(rng, n, kinds[4])
    if x0 is None:
        kinds[4] = 'real'
    small = not ints and rng.random() < .3
    if small:
        # outputs in other units; from rest, or not driven at all
        unit = 10. ** rng.uniform(-20, 20)
        u = u * (unit if rng.integers(2) else 0.)
        x0 = None if x0 is None else x0 * unit
        env.count('simulations_in_other_units')
    with env.case(i, dict(n=n, p=p, q=q, T=T, kinds=kinds, ints=ints, x0=x0 is not None)):
        x = np.zeros(n, dtype=complex) if x0 is None else x0.astype(complex)
        want = []
        for k in range(T):
            want.append(np.dot(C, x))
            x = np.dot(A, x) + np.dot(B, u[k])
        want = np.array(want)
        cplx = 'complex' in kinds
        cv = lambda a: a.tolist() if rng.random() < .15 else a.copy()
        uarg = u.copy()
        if p == 1 and rng.random() < .4:
            uarg = uarg[:, 0]
        xarg = x0 if x0 is None or rng.random() < .7 else x0.reshape(1, -1)
        kw = {} if x0 is None and rng.random() < .5 else dict(initial_condition=xarg)
        got = mr.lsim(cv(A), cv(B), cv(C), uarg, **kw)
        env.close(got, want, 'lsim', 1e-10, scale=max(1e-300 if small else 1e-3, np.abs(want).max()), what='lsim outputs')
        env.count('simulations_checked')
        # impulse response
        m = int(pick(rng, [1, 2, 3, int(rng.integers(1, 25))])) if i % 20 != 7 or ints else int(rng.integers(25, 600))
        ref = markov(A, B, C, m)
        M = mr.impulse(A, B, C, num_time_steps=m) if rng.random() < .5 else mr.impulse(A, B, C, m)
        env.close(M, ref, 'impulse', 1e-10, scale=max(1e-3, np.abs(ref).max()), what='impulse response of %d steps' % m)
        if rng.random() < .3 and not ints:
            M = mr.impulse(A, B, C)
            env.close(M, markov(A, B, C, len(M)), 'impulse', 1e-9, scale=max(1e-3, np.abs(M).max()), what='impulse response of default length')
            env.check(len(M) > 0, 'impulse-length', 'default length %d' % len(M))
        env.count('impulses_checked')
        env.sig(n, p, q, T, tuple(kinds), ints, m, x0 is None)
    env.sample(env.desc)


def rss_case(env, i):
    rng = make_rng(env.seed, 'rss', i)
    n, p, q = int(rng.integers(1, 9)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    if i % 20 == 7:
        p, q = int(rng.integers(5, 40)), int(rng.integers(5, 40))
    np.random.seed(int(rng.integers(1 << 30)))
    for name, f in (('drss', mr.drss), ('rss', mr.rss)):
        with env.case((i, name), dict(n=n, p=p, q=q, f=name)):
            A, B, C = f(n, p, q)
            if not env.check(np.shape(A) == (n, n) and np.shape(B) == (n, p) and np.shape(C) == (q, n), 'rss-shape', '%s shapes %s %s %s' % (name, np.shape(A), np.shape(B), np.shape(C))):
                continue
            env.check(not np.iscomplexobj(A) and np.all(np.isfinite(A)) and np.all(np.isfinite(B)) and np.all(np.isfinite(C)), 'rss-real', name)
            w, X = np.linalg.eig(A)
            slack = 1e-14 * np.linalg.cond(X) * np.linalg.norm(A, 2) * n
            if slack < 1e-3:
                env.check(np.abs(np.imag(w)).max() <= max(np.sqrt(slack), 1e-8), 'rss-eig-real', '%s eigenvalues %s' % (name, w))
                if name == 'drss':
                    env.check(np.abs(w).max() < 1 + slack, 'rss-stable', 'discrete eigenvalues %s' % w)
                else:
                    env.check(np.real(w).max() <= slack, 'rss-stable', 'continuous eigenvalues %s' % w)
                env.count('random_systems_checked')
            env.sig(name, n, p, q)


def gramians(A, B, C):
    import scipy.linalg
    return (scipy.linalg.solve_discrete_lyapunov(A, B.dot(B.conj().T)),
            scipy.linalg.solve_discrete_lyapunov(A.conj().T, C.conj().T.dot(C)))


def balance_case(env, i):
    rng = make_rng(env.seed, 'bal', i)
    for _ in range(100):
        n, p, q = int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        kind = pick(rng, ['real', 'real', 'complex'])
        A, B, C = stable_discrete(rng, n, p, q, kind, rho=.9)
        if i % 4 == 1:
            # each array of its own type
            A, B, C = [x if rng.integers(2) else x.real + 1j * rng.standard_normal(x.shape) * (j > 0) if rng.integers(2) else x.real
                       for j, x in enumerate((A.real * 1., B, C))]
            if np.abs(np.linalg.eigvals(A)).max() > .95:
                continue
        Wc, Wo = gramians(A, B, C)
        hsv = np.sqrt(np.sort(np.abs(np.linalg.eigvals(Wc.dot(Wo))))[::-1])
        if i % 5 == 2:
            # a state that hardly shows must not be lost
            f = 10. ** rng.uniform(-3, 0, n)
            A, B, C = np.diag(np.linalg.eigvals(A) if kind == 'complex' else rng.uniform(.1, .9, n) * rng.choice([-1, 1], n)), B * f[:, None], C * f
            if len({'i%s' % np.round(x, 2) for x in np.diag(A)}) < n:
                continue
            Wc, Wo = gramians(A, B, C)
            hsv = np.sqrt(np.sort(np.abs(np.linalg.eigvals(Wc.dot(Wo))))[::-1])
            if 1e-6 * hsv[0] < hsv[-1] and np.linalg.cond(Wc) < 1e9 and np.linalg.cond(Wo) < 1e9 and hsv[-1] > 1e-6:
                break
            continue
        if hsv[-1] > 1e-3 * hsv[0] and np.linalg.cond(Wc) < 1e6 and np.linalg.cond(Wo) < 1e6 and hsv[-1] > 1e-3:
            break
    else:
        return
    order = pick(rng, [None, None, n] + [int(rng.integers(1, n + 1))])
    k = n if order is None else order
    kind = ' '.join('complex' if np.iscomplexobj(x) else 'real' for x in (A, B, C))
    with env.case(i, dict(n=n, p=p, q=q, kind=kind, order=order)):
        kw = {} if order is None and rng.random() < .5 else dict(order=order)
        keep = [A.copy(), B.copy(), C.copy()]
        if rng.random() < .6:
            Ab, Bb, Cb, s = mr.balanced_truncation(A, B, C, return_sing_vals=True, **kw)
            env.close(np.asarray(s)[:n], hsv, 'bal-hsv', 1e-6, what='Hankel singular values')
            env.check(np.all(np.diff(s) <= 0), 'bal-order', 'singular values %s' % s)
        else:
            Ab, Bb, Cb = mr.balanced_truncation(A, B, C, **kw)
        env.check(all(np.array_equal(x, y) for x, y in zip(keep, (A, B, C))), 'bal-input', 'inputs were modified')
        if not env.check(np.shape(Ab) == (k, k) and np.shape(Bb) == (k, p) and np.shape(Cb) == (q, k), 'bal-shapes', '%s %s %s' % (np.shape(Ab), np.shape(Bb), np.shape(Cb))):
            return
        if i % 3 == 0:
            # inputs and outputs in other units
            cb, cc = 10. ** rng.uniform(-25, 15), 10. ** rng.uniform(-25, 15)
            env.desc['units'] = (cb, cc)
            Au, Bu, Cu, su = mr.balanced_truncation(A, B * cb, C * cc, return_sing_vals=True, order=n)
            if env.check(np.shape(Au) == (n, n), 'bal-units', 'system of order %s, expected %d' % (np.shape(Au), n)):
                env.close(np.asarray(su)[:n] / (cb * cc), hsv, 'bal-units', 1e-6, what='Hankel singular values')
                env.close(markov(Au, Bu, Cu, 12) / (cb * cc), markov(A, B, C, 12), 'bal-units', 1e-6, what='impulse response')
                env.count('other_units_checked')
        if k == n:
            env.close(markov(Ab, Bb, Cb, 12), markov(A, B, C, 12), 'bal-markov', 1e-6, what='impulse response of the balanced system')
            Gc, Go = gramians(np.asarray(Ab), np.asarray(Bb), np.asarray(Cb))
            env.close(Gc, np.diag(hsv), 'bal-gramian', 1e-6, scale=hsv[0], what='controllability Gramian of the balanced system')
            env.close(Go, np.diag(hsv), 'bal-gramian', 1e-6, scale=hsv[0], what='observability Gramian of the balanced system')
            env.count('balanced_systems_checked')
        else:
            # truncation: leading part of the balanced system
            if hsv[k - 1] > hsv[k] * 1.01:
                Af, Bf, Cf = mr.balanced_truncation(A, B, C)
                tr = markov(np.asarray(Af)[:k, :k], np.asarray(Bf)[:k], np.asarray(Cf)[:, :k], 8)
                env.close(markov(Ab, Bb, Cb, 8), tr, 'bal-truncated', 1e-5, scale=max(hsv[0], np.abs(tr).max()), what='truncated system')
                env.check(np.abs(np.linalg.eigvals(Ab)).max() < 1 + 1e-9, 'bal-stable', 'truncated system is unstable')
            # error bound: twice the sum of the truncated Hankel singular values
            tail = 2 * hsv[k:].sum()
            th = np.linspace(0, 2 * np.pi, 17)
            for t in th:
                z = np.exp(1j * t)
                G = C.dot(np.linalg.solve(z * np.eye(n) - A, B))
                Gr = np.dot(Cb, np.linalg.solve(z * np.eye(k) - Ab, Bb))
                e = np.linalg.norm(G - Gr, 2)
                env.check(e <= tail * (1 + 1e-6) + 1e-8, 'bal-bound', 'error %g at frequency %g exceeds bound %g' % (e, t, tail))
            env.count('truncations_checked')
        env.sig(n, p, q, kind, order)
    env.sample(env.desc)


# ================================================================ C29 (serial helpers)
class NotIterable(object):
    pass


def helper_case(env, i):
    rng = make_rng(env.seed, 'helper', i)
    with env.case((i, 'atleast'), None):
        for _ in range(6):
            nd = int(rng.integers(0, 5))
            shape = tuple(int(x) for x in rng.integers(1, 5, nd))
            k = pick(rng, ['real', 'complex', 'int', 'bool'])
            a = rng.integers(-5, 6, shape) if k == 'int' else rng.random(shape) < .5 if k == 'bool' else gauss(rng, shape, k)
            a = np.asarray(a)
            arg = a.tolist() if rng.random() < .3 else (np.asfortranarray(a) if rng.random() < .3 else a)
            env.desc = dict(shape=shape, kind=k, list=not isinstance(arg, np.ndarray))
            row, col = util.atleast_2d_row(arg), util.atleast_2d_col(arg)
            wr = a.reshape(1, -1) if nd < 2 else a
            wc = a.reshape(-1, 1) if nd < 2 else a
            env.equal(row, wr, 'atleast-row', 'atleast_2d_row')
            env.equal(col, wc, 'atleast-col', 'atleast_2d_col')
            env.check(np.asarray(row).dtype == np.array(arg).dtype and np.asarray(col).dtype == np.array(arg).dtype, 'atleast-type', 'type changed')
            env.count('helpers_checked', 2)
            env.sig('atleast', shape, k)
    with env.case((i, 'iterable'), None):
        for x in (None, 3, 2.5, 1j, NotIterable(), np.float64(2), np.int64(3), np.array(5), True, len, mr.VecHandleInMemory(np.ones(2))):
            got = util.make_iterable(x)
            env.check(isinstance(got, list) and len(got) == 1 and got[0] is x, 'iterable-wrap', 'make_iterable(%r) = %r' % (x, got))
        for x in ([1, 2], (1,), 'ab', '', {}, {1: 2}, set([3]), range(3), np.arange(3), np.ones((2, 2)), iter([1]), (y for y in [1]), [], [[1]], b'x'):
            got = util.make_iterable(x)
            env.check(got is x, 'iterable-keep', 'make_iterable(%r) = %r' % (x, got))
        env.count('helpers_checked', 26)
    with env.case((i, 'lists'), None):
        ll = [[pick(rng, [1, 'a', None, (1, 2), [3]]) for _ in range(int(rng.integers(0, 4)))] for _ in range(int(rng.integers(0, 6)))]
        env.desc = repr(ll)
        got = util.flatten_list(ll)
        want = []
        for x in ll:
            want += x
        env.check(got == want and isinstance(got, list), 'flatten', 'flatten_list(%r) = %r' % (ll, got))
        m = int(rng.integers(0, 6))
        kind = pick(rng, ['int', 'str', 'array', 'list', 'complex'])
        gen = {'int': lambda: int(rng.integers(-5, 6)), 'str': lambda: pick(rng, 'abc'), 'array': lambda: rng.standard_normal(3), 'list': lambda: [int(rng.integers(5))], 'complex': lambda: complex(1, rng.integers(5))}[kind]
        l1, l2 = [gen() for _ in range(m)], [gen() for _ in range(m)]
        k1 = repr((l1, l2))
        got = util.sum_lists(l1, l2)
        env.check(len(got) == m and all(np.array_equal(g, a + b) for g, a, b in zip(got, l1, l2)) and repr((l1, l2)) == k1, 'sum-lists', 'sum_lists(%r, %r) = %r' % (l1, l2, got))
        env.raises((AssertionError, ValueError), 'sum-lists-length', lambda: util.sum_lists(l1 + [gen()], l2), 'lists of different lengths')
        a, b = gauss(rng, (2, m + 1), pick(rng, ['real', 'complex'])), rng.integers(-4, 5, (2, m + 1))
        x, y = (a.tolist(), b) if rng.random() < .5 else (a, b.tolist())
        env.equal(util.sum_arrays(x, y), a + b, 'sum-arrays', 'sum_arrays')
        env.count('helpers_checked', 3)
        env.sig('lists', len(ll), m, kind)
    with env.case((i, 'eq'), None):
        for _ in range(8):
            k = pick(rng, ['array', 'shape', 'value', 'type', 'scalar', 'list', 'bcast', 'empty', 'str', 'obj'])
            env.desc = k
            n = int(rng.integers(1, 5))
            a = gauss(rng, (n, 2), pick(rng, ['real', 'complex']))
            if k == 'array':
                p, q, want = a, np.asfortranarray(a.copy()), True
            elif k == 'shape':
                p, q, want = a, pick(rng, [a[:, :1], a.reshape(-1), a.reshape(2, n) if n != 2 else a[:1], a[None]]), False
            elif k == 'value':
                b = a.copy()
                b[int(rng.integers(n)), int(rng.integers(2))] += pick(rng, [1., 1e-10])
                p, q, want = a, b, False
            elif k == 'type':
                p, q = pick(rng, [(a, a.tolist()), (1, 1.), (True, 1), ('1', 1), ([1], (1,)), (None, 0), (a, None), (np.float64(1), 1.)])
                want = False
            elif k == 'scalar':
                x = pick(rng, [1, 2.5, 'x', None, 1j])
                p, q, want = x, x, True
            elif k == 'list':
                p, q = [1, 2], pick(rng, [[1, 2], [2, 1], [1], [1, 2, 3]])
                want = q == [1, 2]
            elif k == 'bcast':
                p, q, want = np.ones((n + 1, 1)), np.ones((1, n + 1)), False
            elif k == 'empty':
                p, q, want = np.zeros((0, 2)), pick(rng, [np.zeros((0, 2)), np.zeros((2, 0))]), None
                want = q.shape == (0, 2)
            elif k == 'obj':
                x = NotIterable()
                p, q, want = x, pick(rng, [x, NotIterable()]), None
                want = q is x
            else:
                p, q = 'abc', pick(rng, ['abc', 'abd'])
                want = q == 'abc'
            if rng.random() < .5:
                p, q = q, p
            got = util.smart_eq(p, q)
            env.check(bool(got) == want and np.ndim(got) == 0, 'smart-eq', 'smart_eq(%r, %r) = %r' % (p, q, got))
            env.count('helpers_checked')
            env.sig('eq', k, n)
    with env.case((i, 'handles'), None):
        # handles are equal exactly if they describe the same vector
        b1, b2 = gauss(rng, 3, 'real'), gauss(rng, 3, 'complex')
        makers = dict(
            mem=lambda which, base, scale: mr.VecHandleInMemory([b1, b2, np.append(b1, 1.)][which].copy(), base, scale),
            text=lambda which, base, scale: mr.VecHandleArrayText(['a.txt', 'b.txt', 'a.txt'][which], base, scale, is_complex=which == 2),
            pickle=lambda which, base, scale: mr.VecHandlePickle(['a.txt', 'b.txt', 'c.txt'][which], base, scale))

        def params():
            base = None if rng.random() < .4 else (pick(rng, sorted(makers)), int(rng.integers(3)), pick(rng, [None, None, 2., -1.]))
            return (pick(rng, sorted(makers)), int(rng.integers(3)), base, pick(rng, [None, None, 3., -1.5, 2j]))

        def handle(t):
            base = None if t[2] is None else makers[t[2][0]](t[2][1], None, t[2][2])
            return makers[t[0]](t[1], base, t[3])
        for _ in range(12):
            a, b = params(), params()
            for j in range(4):
                # differ in one place, or not at all
                if rng.random() < .7:
                    b = b[:j] + a[j:j + 1] + b[j + 1:]
            env.desc = (a, b)
            h, g = handle(a), handle(b)
            env.check((h == g) == (a == b) and (g == h) == (a == b), 'handle-eq', 'equality of %s and %s: %s' % (a, b, h == g))
            env.check(h == handle(a) and not h == 'x' and not h == None, 'handle-eq', 'equality of %s' % (a,))  # noqa: E711
            env.count('handle_pairs_compared')
            env.sig('handle', a, b)
    with env.case((i, 'files'), None):
        d = os.path.join(env.scratch, 'd%d' % i)
        os.mkdir(d)
        names = set(pick(rng, ['a', 'b', 'longer.name', 'txt', 'x.', '', '.h', 'a b']) + pick(rng, ['.txt', '.dat', '.txt.bak', 'txt', '.TXT', '', '.t', '.pkl']) for _ in range(int(rng.integers(0, 12))))
        names.discard('')
        names.discard('.')
        for x in names:
            open(os.path.join(d, x), 'w').close()
        env.desc = sorted(names)
        env.check(sorted(util.get_file_list(d)) == sorted(names), 'file-list', 'all files: %r' % (util.get_file_list(d),))
        for ext in ('.txt', 'txt', '.dat', '.bak', '.txt.bak', '.pkl', '.longextension', 't'):
            for arg in ((d, ext),):
                got = util.get_file_list(*arg)
                env.check(sorted(got) == sorted(x for x in names if x.endswith(ext)), 'file-list', 'files with %r among %r: %r' % (ext, sorted(names), got))
        env.count('helpers_checked', 9)
        env.sig('files', tuple(sorted(names)))
    with env.case((i, 'members'), None):
        class Thing(object):
            cls = 7

            def __init__(self):
                self.x, self._y, self.arr = 1, 'two', [3]

            def method(self):
                return None
        t = Thing()
        t.extra = None
        got = util.get_data_members(t)
        env.check(got == dict(x=1, _y='two', arr=[3], cls=7, extra=None), 'data-members', 'get_data_members: %r' % (got,))
        n = int(rng.integers(1, 9))
        sb = mr.standard_basis(n)
        env.check(isinstance(sb, list) and len(sb) == n, 'standard-basis', 'standard_basis(%d) = %r' % (n, sb))
        for k, v in enumerate(sb):
            env.equal(v, np.array([1. if j == k else 0. for j in range(n)]), 'standard-basis', 'standard basis vector %d of %d' % (k, n))
        env.count('helpers_checked', 2)


def vector_class_case(env, i):
    """Subclasses of Vector that define + and * get -, and multiplication from the left."""
    from .ex_vs import UserVec
    rng = make_rng(env.seed, 'vecclass', i)
    with env.case(i, None):
        kind = pick(rng, ['real', 'complex'])
        a, b = gauss(rng, 4, kind), gauss(rng, 4, kind)
        u, v = UserVec(a), UserVec(b)
        s = pick(rng, [2, -1.5, 1j, np.float64(.5), 0])
        env.close((u - v).arr, a - b, 'vector-sub', 1e-14, scale=10., what='u - v')
        env.close((s * u).arr if not isinstance(s, np.generic) else (float(s) * u).arr, s * a, 'vector-rmul', 1e-14, scale=10., what='s * u')
        env.close((u * s).arr, s * a, 'vector-mul', 1e-14, scale=10., what='u * s')
        env.equal(u.arr, a, 'vector-unchanged', 'operand')
        env.equal(v.arr, b, 'vector-unchanged', 'operand')
        env.count('helpers_checked', 3)
        env.sig('vector', kind, repr(s))
        env.raises(NotImplementedError, 'vector-abstract', lambda: mr.Vector(), 'abstract vector')
