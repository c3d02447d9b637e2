"""Decompositions: truncation (C15), mode selection (C16), saving and restoring
(C10), reuse of objects (C25), parallel agreement (C04)."""
import hashlib
import os

import numpy as np
import modred as mr
from modred import parallel

from .core import make_rng
from .data import gauss, spectrum_array, gram, sqrt_w
from .ex_dec import (Runner, Data, pod_data, bpod_data, dmd_data, make_data, large_data, run_array, array_impls, tag_of, judge_fam,
                     gen_kind, gen_W, weighted, pairs, trunc_opts, bpod_tol, dmd_arrays, pod_arrays, bpod_arrays, match_eigs)
from .ex_vs import pick
from .instr import EvHandle, Log, make_delay, PROFILES, perturbed


def digest(res):
    """Bitwise fingerprint of every array in a result."""
    out = {}
    for k, v in sorted(res.items()):
        if isinstance(v, np.ndarray):
            out[k] = hashlib.sha1(repr((v.shape, v.dtype.str)).encode() + np.ascontiguousarray(v).tobytes()).hexdigest()
    return out


def same_on_all(env, res, key):
    if env.size > 1:
        mine = digest(res)
        every = env.comm.allgather(mine)
        bad = sorted(k for k in mine if any(e.get(k) != mine[k] for e in every))
        env.check(not bad, key, 'arrays differ between processes: %s' % bad)
        env.count('cross_process_comparisons', len(mine))


# ================================================================ C15
def gaps_spectrum(rng, r):
    """Descending singular values whose squares differ by factors >= 3."""
    ratio = rng.uniform(1.9, 3.2, r)
    s = 1. / np.cumprod(ratio)
    return s / s[0] * 10. ** rng.uniform(-1, 1)


def thresholds(rng, ev):
    """(atol, rtol, number kept) relative to the descending positive values ev."""
    def thr(j, unit):
        if j == 0:
            return ev[0] * 0.4 if len(ev) == 1 else np.sqrt(ev[0] * ev[1]), 1
        if j >= len(ev):
            return ev[-1] * 0.2, len(ev)
        return np.sqrt(ev[j - 1] * ev[j]), j
    atol, rtol, kept = pick(rng, [None, 1e-13 * ev[0], 'x', 'x']), pick(rng, [None, 1e-13, 'x', 'x']), len(ev)
    if atol == 'x':
        atol, k = thr(int(rng.integers(1, len(ev) + 1)), 1)
        kept = min(kept, k)
    if rtol == 'x':
        rtol, k = thr(int(rng.integers(1, len(ev) + 1)), 1)
        rtol = rtol / ev[0]
        kept = min(kept, k)
    return atol, rtol, kept


def count_kept(ev, atol, rtol, cap=None):
    ok = np.ones(len(ev), bool)
    if atol is not None:
        ok &= ev > atol
    if rtol is not None:
        ok &= ev > rtol * ev[0]
    k = int(ok.sum())
    return k if cap is None else min(k, cap)


def clear(ev, atol, rtol):
    """No value of ev is within 20% of a threshold."""
    t = [x for x in (atol, None if rtol is None else rtol * ev[0]) if x is not None]
    return all(np.all((ev > 1.2 * x) | (ev < x / 1.2)) for x in t)


DIRECT_KEY = 'direct-tol-on-singular-values'


def judge_count(env, fam, impl, got, want, want_sv, key, msg):
    """want: count by eigenvalues of the correlation array (documented);
    want_sv: count a direct method gets by comparing singular values."""
    env.count('truncations_checked')
    if got == want:
        return True
    if impl == 'direct' and got == want_sv:
        env.viol(DIRECT_KEY, '%s direct method keeps %d values, documented criterion on correlation eigenvalues keeps %d (%s)' % (
            fam, got, want, msg))
        return False
    env.viol(key, '%s kept %d values, expected %d: %s' % (impl, got, want, msg))
    return False


def shapes_ok(env, key, res, want):
    for name, shape in want.items():
        if res.get(name) is not None:
            env.check(np.shape(res[name]) == shape, key, '%s has shape %s, expected %s' % (name, np.shape(res[name]), shape))


def trunc_data(rng, fam):
    """Data with a known, gapped spectrum and tolerances away from it."""
    for _ in range(500):
        d = Data()
        d.kind = gen_kind(rng)
        m = int(rng.integers(1, 8))
        n = m + int(rng.integers(0, 8))
        d.W = gen_W(rng, n, d.kind)
        s = gaps_spectrum(rng, m)
        d.deficient = False
        d.cap = None
        R = sqrt_w(d.W, n)
        if fam == 'POD':
            d.X = weighted(rng, n, m, s, d.W, d.kind)
            ev = s ** 2
        elif fam == 'BPOD':
            q = m + int(rng.integers(0, 3))
            n = max(n, q)
            d.W = gen_W(rng, n, d.kind)
            R = sqrt_w(d.W, n)
            H = spectrum_array(rng, q, m, s, d.kind)
            Yw = gauss(rng, (n, q), d.kind)
            Xw = np.linalg.pinv(Yw.conj().T).dot(H)
            d.X, d.Y = np.linalg.solve(R, Xw), np.linalg.solve(R, Yw)
            d.p, d.q = m, q
            ev = s
        else:
            d.tls = fam == 'TLS'
            d.seq = bool(rng.integers(2))
            d.cap = pick(rng, [None, None, m + 2, int(rng.integers(1, m + 1))])
            if d.seq and not d.tls:
                last = weighted(rng, n, 1, np.ones(1), d.W, d.kind)
                d.V, d.Y = np.hstack((weighted(rng, n, m, s, d.W, d.kind), last)), None
                ev = s ** 2
            elif d.seq:
                Xw = spectrum_array(rng, n, m + 1, np.append(s, s[-1] / rng.uniform(1.9, 3.2))[:min(n, m + 1)], d.kind)
                d.V, d.Y = np.linalg.solve(R, Xw), None
                d.Z = np.vstack((Xw[:, :-1], Xw[:, 1:]))
                ev = np.linalg.svd(d.Z, compute_uv=False) ** 2
                if ev[-1] < 1e-6 * ev[0]:
                    continue
            elif not d.tls:
                d.V = weighted(rng, n, m, s, d.W, d.kind)
                d.Y = weighted(rng, n, m, np.ones(m), d.W, d.kind)
                ev = s ** 2
            else:
                Z = spectrum_array(rng, 2 * n, m, s, d.kind)
                d.V, d.Y = np.linalg.solve(R, Z[:n]), np.linalg.solve(R, Z[n:])
                ev = s ** 2
                d.Z = Z
        d.atol, d.rtol, _ = thresholds(rng, ev)
        d.ev, d.m, d.n = ev, m, n
        if not expected(d, fam):
            continue
        d.desc = dict(fam=fam, n=n, m=m, seq=getattr(d, 'seq', None), kind=d.kind, W=None if d.W is None else d.W.ndim, atol=d.atol, rtol=d.rtol, cap=d.cap,
                      spectrum=[float('%.3g' % x) for x in ev])
        return d
    raise RuntimeError('no truncation data')


def tls_counts(d, square, atol, rtol, cap):
    """Kept counts (sum array, projected array) by eigenvalues or singular values."""
    s = np.linalg.svd(d.Z, compute_uv=False)
    vals = s ** 2 if square else s
    if not clear(vals, atol, rtol):
        return None
    k1 = count_kept(vals, atol, rtol, cap)
    if k1 == 0:
        return 0, 0
    V = np.linalg.svd(d.Z, full_matrices=False)[2][:k1].conj().T
    sx = np.linalg.svd(d.Z[:d.n].dot(V), compute_uv=False)
    v2 = sx ** 2 if square else sx
    tiny = v2 < 1e-9 * v2[0]
    if tiny.any() or not clear(v2, atol, rtol):
        return None
    return k1, count_kept(v2, atol, rtol, cap)


def expected(d, fam):
    if fam == 'TLS':
        d.want = tls_counts(d, True, d.atol, d.rtol, d.cap)
        d.want_sv = tls_counts(d, False, d.atol, d.rtol, d.cap)
        if d.want is None or d.want_sv is None or min(d.want) < 1 or min(d.want_sv) < 1:
            return False
        return True
    if not clear(d.ev, d.atol, d.rtol):
        return False
    k = count_kept(d.ev, d.atol, d.rtol, d.cap)
    sv = np.sqrt(d.ev)
    if fam != 'BPOD' and not clear(sv, d.atol, d.rtol):
        return False
    k2 = count_kept(sv, d.atol, d.rtol, d.cap)
    d.want, d.want_sv = (k, k), (k2, k2)
    return k >= 1 and k2 >= 1


def fam_kept(fam, res):
    """(kept in first decomposition, kept in second) as the user sees them."""
    if fam == 'POD':
        return (len(res['eigvals']),) * 2
    if fam == 'BPOD':
        return (len(res['sing_vals']),) * 2
    if fam == 'DMD':
        return len(res['correlation_array_eigvals']), len(res['eigvals'])
    return len(res['sum_correlation_array_eigvals']), len(res['eigvals'])


def check_trunc(env, d, fam, impl, res, want, want_sv):
    got = fam_kept(fam, res)
    tag = 'trunc-%s-%s' % (fam, impl)
    ok = judge_count(env, fam, impl, got[0], want[0], want_sv[0], tag, d.desc)
    if ok and fam in ('DMD', 'TLS'):
        ok = judge_count(env, fam, impl, got[1], want[1], want_sv[1], tag, d.desc)
    k1, k = got
    n, m = d.n, d.m
    if fam == 'POD':
        shapes_ok(env, tag + '-shapes', res, dict(eigvecs=(m, k), modes=(d.X.shape[0], k), proj_coeffs=(k, m)))
    elif fam == 'BPOD':
        shapes_ok(env, tag + '-shapes', res, dict(
            L_sing_vecs=(d.q, k), R_sing_vecs=(d.p, k), direct_modes=(d.X.shape[0], k), adjoint_modes=(d.X.shape[0], k),
            direct_proj_coeffs=(k, d.p), adjoint_proj_coeffs=(k, d.q)))
    else:
        shapes_ok(env, tag + '-shapes', res, dict(
            R_low_order_eigvecs=(k, k), L_low_order_eigvecs=(k, k), exact_modes=(n, k), proj_modes=(n, k), adjoint_modes=(n, k),
            proj_coeffs=(k, m), adv_proj_coeffs=(k, m), spectral_coeffs=(k,), correlation_array_eigvals=(k,),
            correlation_array_eigvecs=(m, k), proj_correlation_array_eigvals=(k,), proj_correlation_array_eigvecs=(m, k),
            sum_correlation_array_eigvals=(k1,), sum_correlation_array_eigvecs=(m, k1)))


def trunc_kw(fam, d):
    kw = dict(atol=d.atol, rtol=d.rtol)
    if fam in ('DMD', 'TLS'):
        kw['max_num_eigvals'] = d.cap
    return kw


def trunc_case(env, i, fam):
    rng = make_rng(env.seed, 'trunc', fam, i, env.size)
    d = trunc_data(rng, fam)
    d.max_num = d.cap
    env.sample(d.desc)
    kw = trunc_kw(fam, d)
    if env.size == 1:
        for impl in array_impls(fam):
            with env.case(i, dict(impl=impl, **d.desc)):
                f = {'POD': pod_arrays, 'BPOD': lambda d, impl, **kw: bpod_arrays(d, **kw), 'DMD': dmd_arrays, 'TLS': dmd_arrays}[fam]
                res = f(d, impl, **kw)
                check_trunc(env, d, fam, impl, res, d.want, d.want_sv)
                env.sig(fam, impl, d.m, d.want, d.atol is None, d.rtol is None, d.cap)
    with env.case(i, dict(impl='handles', np=env.size, **d.desc)):
        r = Runner(env, fam, d.W, rng)
        res = r.full(d, **kw)
        check_trunc(env, d, fam, 'handles', res, d.want, d.want)
        env.sig(fam, 'handles', env.size, d.m, d.want, d.atol is None, d.rtol is None, d.cap)
        # further decompositions of the same correlation arrays
        redo = getattr(r.obj, 'compute_SVD' if fam == 'BPOD' else 'compute_eigendecomp')
        first = (d.atol, d.rtol, d.cap, d.want)
        for step in range(int(rng.integers(1, 4))):
            for _ in range(100):
                if step == 2:
                    d.atol, d.rtol, d.cap = first[:3]
                else:
                    d.atol, d.rtol, _k = thresholds(rng, d.ev)
                    d.cap = pick(rng, [None, int(rng.integers(1, d.m + 1))]) if fam in ('DMD', 'TLS') else None
                if expected(d, fam):
                    break
            else:
                return
            d.desc.update(atol=d.atol, rtol=d.rtol, cap=d.cap, step=step)
            redo(**trunc_kw(fam, d))
            o = r.obj
            res = {k: getattr(o, k) for k in ('eigvals', 'eigvecs', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'R_low_order_eigvecs',
                                              'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
                                              'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs') if hasattr(o, k)}
            if fam == 'DMD':
                res.update(correlation_array_eigvals=o.correlation_array_eigvals, correlation_array_eigvecs=o.correlation_array_eigvecs)
            res.update(r.all_modes())
            res.update(r.coeffs())
            check_trunc(env, d, fam, 'repeated', res, d.want, d.want)
            env.count('repeated_truncations')


def trunc_util_case(env, i):
    """util.svd and util.eigh directly."""
    rng = make_rng(env.seed, 'truncutil', i)
    kind = gen_kind(rng)
    m = int(rng.integers(1, 9))
    s = gaps_spectrum(rng, m)
    atol, rtol, _ = thresholds(rng, s)
    want = count_kept(s, atol, rtol)
    env.sig('util', m, want, atol is None, rtol is None, kind)
    with env.case(i, dict(fn='svd', m=m, atol=atol, rtol=rtol, s=s)):
        A = spectrum_array(rng, m + int(rng.integers(0, 4)), m, s, kind)
        if rng.random() < .5:
            A = A.conj().T
        U, S, V = mr.svd(A, atol=atol, rtol=rtol)
        judge_count(env, 'svd', 'svd', len(S), want, want, 'trunc-svd', 'atol %s rtol %s' % (atol, rtol))
        env.check(U.shape == (A.shape[0], len(S)) and V.shape == (A.shape[1], len(S)), 'trunc-svd-shapes', '%s %s' % (U.shape, V.shape))
    for posdef in (True, False):
        with env.case(i, dict(fn='eigh', posdef=posdef, m=m, atol=atol, rtol=rtol, s=s)):
            Q = np.linalg.qr(gauss(rng, (m, m), kind))[0]
            e = s if posdef else s * rng.choice([-1, 1], m)
            H = (Q * e).dot(Q.conj().T)
            H = (H + H.conj().T) / 2
            ev, evec = mr.eigh(H, atol=atol, rtol=rtol, is_positive_definite=posdef)
            judge_count(env, 'eigh', 'eigh', len(ev), want, want, 'trunc-eigh', 'atol %s rtol %s posdef %s' % (atol, rtol, posdef))
            env.check(evec.shape == (m, len(ev)), 'trunc-eigh-shapes', '%s' % (evec.shape,))


def powers(rng, m):
    """Descending powers of two, some of them repeated."""
    return 2. ** np.sort(rng.integers(-6, 5, m))[::-1]


def spread(rng, n, s, kind):
    """n x len(s) array with one entry per row and column: its products are exact."""
    A = np.zeros((n, len(s)), dtype=complex if kind == 'complex' else float)
    A[rng.permutation(n)[:len(s)], np.arange(len(s))] = s * rng.choice([1, -1] + ([1j, -1j] if kind == 'complex' else []), len(s))
    return A


def exact_tols(rng, ev):
    """Tolerances equal to one of the values, or just below it."""
    atol = rtol = None
    below = lambda x: x if rng.integers(2) else np.nextafter(x, 0)
    which = pick(rng, ['atol', 'rtol', 'both'])
    if which != 'rtol':
        atol = float(below(pick(rng, list(ev))))
    if which != 'atol':
        rtol = float(below(pick(rng, list(ev)) / ev[0]))
    return atol, rtol


def strictly(ev, atol, rtol):
    ok = np.ones(len(ev), bool)
    if atol is not None:
        ok &= ev > atol
    if rtol is not None:
        ok &= ev / ev[0] > rtol
    return int(ok.sum())


def trunc_exact_case(env, i):
    """Values that equal the tolerance do not exceed it. Only arrays whose
    decompositions are free of roundoff."""
    rng = make_rng(env.seed, 'truncexact', i, env.size)
    kind = pick(rng, ['real', 'complex'])
    m = int(rng.integers(2, 8))
    n = m + int(rng.integers(0, 5))
    s = powers(rng, m)
    order = rng.permutation(m)
    if env.size == 1:
        A = spread(rng, n, s[order], kind)
        A = A.conj().T if rng.integers(2) else A
        atol, rtol = exact_tols(rng, s)
        with env.case((i, 'svd'), dict(fn='svd', s=s, atol=atol, rtol=rtol, kind=kind)):
            if np.array_equal(np.linalg.svd(A, compute_uv=False)[:m], s):
                got = len(mr.svd(A, atol=atol, rtol=rtol)[1])
                env.check(got == strictly(s, atol, rtol), 'trunc-exact-svd', 'kept %d of %s' % (got, s))
                env.count('exact_tolerances_checked')
        e = s.copy()
        posdef = bool(rng.integers(2))
        zeros = rng.random() < .4
        if zeros:
            e[int(rng.integers(1, m)):] = 0
        signs = np.ones(m) if posdef else rng.choice([-1., 1.], m)
        H = np.diag((e * signs)[order]).astype(complex if kind == 'complex' else float)
        atol, rtol = exact_tols(rng, e)
        if zeros:
            atol, rtol = pick(rng, [None, 0., 0, atol]), pick(rng, [None, None, rtol])
        want = strictly(e, atol, rtol)
        if posdef and zeros:
            want = min(want, int((e > 0).sum()))
        with env.case((i, 'eigh'), dict(fn='eigh', e=e * signs, atol=atol, rtol=rtol, posdef=posdef)):
            if np.array_equal(np.sort(np.abs(np.linalg.eigvalsh(H)))[::-1], e):
                got = len(mr.eigh(H, atol=atol, rtol=rtol, is_positive_definite=posdef)[0])
                env.check(got == want, 'trunc-exact-eigh', 'kept %d of %s, expected %d' % (got, e * signs, want))
                env.count('exact_tolerances_checked')
    # decompositions
    fam = pick(rng, ['POD', 'BPOD', 'DMD', 'TLS'])
    d = Data()
    d.kind, d.seq, d.tls, d.max_num, d.cap, d.deficient = kind, False, fam == 'TLS', None, None, False
    w = 4. ** rng.integers(-2, 3, n) if rng.integers(2) else None
    d.W = w
    root = np.ones(n) if w is None else np.sqrt(w)
    if fam == 'BPOD':
        d.Y = np.eye(n)[:, rng.permutation(n)] / root[:, None]
        d.X = spread(rng, n, s[order], kind) / root[:, None]
        d.p, d.q = m, n
        ev = s
    elif fam == 'TLS':
        d.V, d.Y = [spread(rng, n, f * s[order], kind) / root[:, None] for f in (3., 4.)]
        ev = 25 * s ** 2
    else:
        d.X = d.V = spread(rng, n, s[order], kind) / root[:, None]
        d.Y = gauss(rng, (n, m), kind)
        ev = s ** 2
    for _ in range(50):
        atol, rtol = exact_tols(rng, ev)
        k1 = strictly(ev, atol, rtol)
        k = strictly(9 * s[:k1] ** 2, atol, rtol) if fam == 'TLS' and k1 else k1
        if k:
            break
    else:
        return
    d.ev, d.m, d.n, d.atol, d.rtol = ev, m, n, atol, rtol
    d.desc = dict(fam=fam, n=n, m=m, kind=kind, W=w is not None, spectrum=list(ev), atol=atol, rtol=rtol)
    kw = dict(atol=atol, rtol=rtol)
    # a spectrum the decomposition of which is subject to roundoff decides nothing
    G = np.diag(ev[order])
    vals = np.linalg.svd(G, compute_uv=False) if fam == 'BPOD' else np.sort(np.linalg.eigvalsh(G))[::-1]
    if not np.array_equal(vals, ev):
        env.count('inexact_decompositions')
        return
    want = (k1, k)
    if env.size == 1:
        for impl in [x for x in array_impls(fam) if x != 'direct']:
            with env.case((i, impl), dict(impl=impl, **d.desc)):
                f = {'POD': pod_arrays, 'BPOD': lambda d, impl, **kw: bpod_arrays(d, **kw), 'DMD': dmd_arrays, 'TLS': dmd_arrays}[fam]
                got = fam_kept(fam, f(d, impl, **kw))
                env.check(got == want, 'trunc-exact-%s-%s' % (fam, impl), 'kept %s, expected %s' % (got, want))
                env.count('exact_tolerances_checked')
    with env.case((i, 'handles'), dict(impl='handles', np=env.size, **d.desc)):
        r = Runner(env, fam, d.W, rng)
        r.load(d)
        got = fam_kept(fam, r.decomp(**kw))
        env.check(got == want, 'trunc-exact-%s-handles' % fam, 'kept %s, expected %s' % (got, want))
        env.count('exact_tolerances_checked')
    env.sig(fam, env.size, n, m, kind, tuple(ev), atol, rtol)
    env.sample(d.desc)


def trunc_none_case(env, i, fam):
    """Tolerances above every value: nothing is kept, and all results are empty."""
    rng = make_rng(env.seed, 'truncnone', fam, i, env.size)
    d = trunc_data(rng, fam)
    d.max_num = d.cap
    top = (np.linalg.svd(d.Z, compute_uv=False)[0] if fam == 'TLS' else np.sqrt(d.ev[0]))
    if fam == 'BPOD':
        top = d.ev[0]
    d.atol, d.rtol = 2 * max(top, top ** 2), pick(rng, [None, 1e-10])
    d.desc.update(atol=d.atol, rtol=d.rtol)
    zero = (0, 0)
    if env.size == 1:
        for impl in array_impls(fam):
            with env.case(i, dict(impl=impl, none=True, **d.desc)):
                f = {'POD': pod_arrays, 'BPOD': lambda d, impl, **kw: bpod_arrays(d, **kw), 'DMD': dmd_arrays, 'TLS': dmd_arrays}[fam]
                check_trunc(env, d, fam, impl, f(d, impl, **trunc_kw(fam, d)), zero, zero)
    with env.case(i, dict(impl='handles', none=True, np=env.size, **d.desc)):
        r = Runner(env, fam, d.W, rng)
        r.load(d)
        check_trunc(env, d, fam, 'handles', r.decomp(**trunc_kw(fam, d)), zero, zero)
    env.count('nothing_kept')
    env.sig('none', fam, env.size, d.m, d.n, d.kind)


# ================================================================ C16
def selections(rng, k):
    """(index argument, list of indices) pairs."""
    perm = [int(x) for x in rng.permutation(k)]
    sub = perm[:int(rng.integers(1, k + 1))]
    j = int(rng.integers(k))
    out = [(sub, sub), (sorted(sub), sorted(sub)), (np.array(sub), sub), (range(len(sub)), list(range(len(sub)))), (j, [j]),
           (perm, perm), ([j], [j]), (range(k - 1, -1, -1), list(range(k - 1, -1, -1)))]
    rep = [int(x) for x in rng.integers(0, k, int(rng.integers(1, k + 2)))]
    out.append((rep, rep))
    return out


def select_case(env, i, fam):
    rng = make_rng(env.seed, 'select', fam, i, env.size)
    d = large_data(rng, fam, False) if i % 20 == 7 else make_data(rng, fam)
    env.count('large_sets_of_vectors', int(i % 20 == 7))
    if env.size == 1:
        for impl in array_impls(fam):
            with env.case(i, dict(impl=impl, **d.desc)):
                full = run_array(fam, d, impl)
                k = fam_kept(fam, full)[1]
                for arg, lst in selections(rng, k):
                    env.desc = dict(impl=impl, idx=repr(arg), **d.desc)
                    if fam == 'BPOD':
                        arg2, lst2 = pick(rng, selections(rng, k))
                        kw = dict(direct_mode_indices=arg, adjoint_mode_indices=arg2)
                        which = dict(direct_modes=lst, adjoint_modes=lst2)
                    else:
                        kw = dict(mode_indices=arg)
                        which = {w: lst for w in Runner.KINDS[fam]}
                    res = run_array(fam, d, impl, **kw)
                    for name, val in res.items():
                        want = full[name][:, which[name]] if name in which else full[name]
                        if name in which and isinstance(arg, int) and np.ndim(val) == 1:
                            val = val.reshape(want.shape)
                        if name in which and np.ndim(val) == 1 and want.shape[1] == 1:
                            val = val.reshape(want.shape)
                        env.close(val, want, 'select-%s-%s' % (fam, impl), 1e-9, scale=max(1e-12, np.abs(full[name]).max()),
                                  what='%s for indices %s' % (name, lst))
                    env.count('selections_checked')
                    env.sig(fam, impl, k, tuple(lst), type(arg).__name__)
    with env.case(i, dict(impl='handles', np=env.size, **d.desc)):
        r = Runner(env, fam, d.W, rng, max_vecs=pick(rng, [None, 3, 3 * env.size + 1]))
        r.load(d)
        res = r.decomp()
        before = digest(dict(res, **r.arrays()))
        full = r.all_modes()
        k = r.count()
        sel = selections(rng, k)
        rng.shuffle(sel)
        for arg, lst in sel[:4]:
            w = pick(rng, Runner.KINDS[fam])
            give = None
            if rng.random() < .3:
                give = explicit(r, fam, w, d, rng)
            env.desc = dict(impl='handles', idx=repr(arg), which=w, np=env.size, give=give is not None, **d.desc)
            if isinstance(arg, int):
                out = r.outs(1)
                getattr(r.obj, 'compute_' + w)(arg, out[0] if rng.random() < .5 else out)
                from .ex_dec import collect
                M = collect(env, out)
            else:
                M = r.modes(w, arg, give)
            if M is not None:
                env.close(M, full[w][:, lst], 'select-%s-handles' % fam, 1e-9, scale=np.abs(full[w]).max(), what='%s for indices %s' % (w, lst))
            env.count('selections_checked')
            env.sig(fam, 'handles', env.size, w, k, tuple(lst), type(arg).__name__)
        o = r.obj
        now = {k_: getattr(o, k_) for k_ in res if hasattr(o, k_)}
        env.check(digest(dict(now, **r.arrays())) == before, 'select-decomposition-changed', 'computing modes changed the decomposition')
    env.sample(env.desc)


def explicit(r, fam, which, d, rng):
    """Vector handles given explicitly to the mode computation."""
    if fam == 'POD':
        return r.h
    if fam == 'BPOD':
        return r.h if which == 'direct_modes' else r.ha
    if which == 'exact_modes':
        return r.h[1:] if d.seq else r.ha
    return r.h


# ================================================================ C10
def stored_equal(env, st, src, a, msg):
    """What the put function received is the array (text files keep no distinction of 1D and 2D)."""
    b, a = np.asarray(st.get(src)), np.asarray(a)
    if st.kind == 'text':
        a, b = np.ravel(a), np.ravel(b)
    env.equal(b, a, 'save-stored-value', msg)
    env.count('stored_arrays_checked')


class Store(object):
    """User put/get functions over memory or files, recording every call."""

    def __init__(self, env, kind):
        self.env, self.kind = env, kind
        self.log = []
        self.mem = {}

    def put(self, array, dest):
        self.log.append((self.env.rank, dest))
        if self.kind == 'memory':
            self.mem[dest] = np.array(array)
        elif self.kind == 'npy':
            np.save(dest, array)
        else:
            mr.save_array_text(array, dest)

    def get(self, src):
        self.env.count('array_gets')
        if self.kind == 'memory':
            return np.array(self.mem[src])
        if self.kind == 'npy':
            return np.load(src + '.npy')
        return mr.load_array_text(src, is_complex='cplx' in src)


PUT_GET = dict(
    POD=[('put_decomp', 'get_decomp', ['eigvals', 'eigvecs']),
         ('put_correlation_array', 'get_correlation_array', ['correlation_array']),
         ('put_proj_coeffs', 'get_proj_coeffs', ['proj_coeffs'])],
    BPOD=[('put_decomp', 'get_decomp', ['sing_vals', 'L_sing_vecs', 'R_sing_vecs']),
          ('put_Hankel_array', 'get_Hankel_array', ['Hankel_array']),
          ('put_direct_proj_coeffs', 'get_direct_proj_coeffs', ['direct_proj_coeffs']),
          ('put_adjoint_proj_coeffs', 'get_adjoint_proj_coeffs', ['adjoint_proj_coeffs'])],
    DMD=[('put_decomp', 'get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals',
                                       'correlation_array_eigvecs']),
         ('put_correlation_array', 'get_correlation_array', ['correlation_array']),
         ('put_cross_correlation_array', 'get_cross_correlation_array', ['cross_correlation_array']),
         ('put_spectral_coeffs', 'get_spectral_coeffs', ['spectral_coeffs']),
         ('put_proj_coeffs', 'get_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])],
    TLS=[('put_decomp', 'get_decomp', ['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals',
                                       'sum_correlation_array_eigvecs', 'proj_correlation_array_eigvals',
                                       'proj_correlation_array_eigvecs']),
         ('put_correlation_array', 'get_correlation_array', ['correlation_array']),
         ('put_cross_correlation_array', 'get_cross_correlation_array', ['cross_correlation_array']),
         ('put_adv_correlation_array', 'get_adv_correlation_array', ['adv_correlation_array']),
         ('put_sum_correlation_array', 'get_sum_correlation_array', ['sum_correlation_array']),
         ('put_proj_correlation_array', 'get_proj_correlation_array', ['proj_correlation_array']),
         ('put_spectral_coeffs', 'get_spectral_coeffs', ['spectral_coeffs']),
         ('put_proj_coeffs', 'get_proj_coeffs', ['proj_coeffs', 'adv_proj_coeffs'])])
SINGLE_PUTS = dict(
    POD=['eigvals', 'eigvecs'], BPOD=['sing_vals', 'L_sing_vecs', 'R_sing_vecs'],
    DMD=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'correlation_array_eigvals', 'correlation_array_eigvecs'],
    TLS=['eigvals', 'R_low_order_eigvecs', 'L_low_order_eigvecs', 'sum_correlation_array_eigvals', 'sum_correlation_array_eigvecs',
         'proj_correlation_array_eigvals', 'proj_correlation_array_eigvecs'])


def one_mode(rng, fam):
    """Data with a single mode."""
    if fam == 'POD':
        return pod_data(rng, n=int(rng.integers(2, 8)), m=int(rng.integers(1, 5)), rank=1)
    if fam == 'BPOD':
        return bpod_data(rng, steps=(1, 1), p=1, q=1) if rng.random() < .5 else bpod_data(rng, p=1, q=1, steps=(int(rng.integers(1, 4)), 1))
    return dmd_data(rng, n=int(rng.integers(2, 7)), m=int(rng.integers(1, 5)), k=1, tls=fam == 'TLS')


def any_values(rng, shape, cplx):
    """Unordered values of any magnitude, some of them almost the same."""
    def real():
        v = rng.standard_normal(shape)
        how = rng.integers(5)
        if how == 1:
            v = v * 10. ** rng.uniform(-30, 30)
        elif how == 2:
            v = 1. + 1e-11 * v
        elif how == 3:
            v = v * 10. ** rng.uniform(-15, 15, shape)
        elif how == 4:
            v = v * (rng.random(shape) < .5)
        return v
    return real() + 1j * real() * (rng.integers(2) + 1e-12) if cplx else real()


def save_case(env, i, fam):
    rng = make_rng(env.seed, 'save', fam, i, env.size)
    d = one_mode(rng, fam) if rng.random() < .35 else large_data(rng, fam, False) if i % 20 == 7 else make_data(rng, fam, vary=True)
    kind = pick(rng, ['memory', 'npy', 'text'])
    st = Store(env, kind)
    desc = dict(fam=fam, np=env.size, store=kind, **d.desc)
    env.sample(desc)
    with env.case(i, desc):
        r = Runner(env, fam, d.W, rng, put_array=st.put, get_array=st.get)
        full = r.full(d)
        same_on_all(env, {k: v for k, v in full.items() if 'modes' not in k}, 'save-source-differs')
        o = r.obj

        def dest(name):
            return os.path.join(env.scratch, '%s_%s' % ('cplx' if np.iscomplexobj(getattr(o, name)) else 'real', name))
        for put, get, names in PUT_GET[fam]:
            n0 = len(st.log)
            getattr(o, put)(*[dest(x) for x in names])
            calls = env.comm.allgather(st.log[n0:]) if env.size > 1 else [st.log[n0:]]
            got = sorted(c for cs in calls for c in cs)
            env.check(got == sorted((0, dest(x)) for x in names), 'save-put-calls',
                      '%s: put function called %s, expected once per array on rank zero: %s' % (put, got, names))
            env.count('array_puts', len(names))
        # single puts overwrite with the same content
        for name in SINGLE_PUTS[fam]:
            n0 = len(st.log)
            getattr(o, 'put_' + name)(dest(name))
            calls = env.comm.allgather(st.log[n0:]) if env.size > 1 else [st.log[n0:]]
            got = sorted(c for cs in calls for c in cs)
            env.check(got == [(0, dest(name))], 'save-put-calls', 'put_%s called put function %s' % (name, got))
        # what rank zero stored is what the object holds
        if env.rank == 0:
            for put, get, names in PUT_GET[fam]:
                for x in names:
                    stored_equal(env, st, dest(x), getattr(o, x), 'stored %s' % x)
        # restore into a new object (every process may read what was stored)
        if env.size > 1:
            st.mem = env.comm.bcast(st.mem)
        r2 = Runner(env, fam, d.W, rng, put_array=st.put, get_array=st.get)
        r2.load(d)
        n2 = r2.obj
        for put, get, names in PUT_GET[fam]:
            getattr(n2, get)(*[dest(x) for x in names])
        decomp_names = PUT_GET[fam][0][2]
        res = {}
        for put, get, names in PUT_GET[fam]:
            for x in names:
                a, b = np.asarray(getattr(o, x)), np.asarray(getattr(n2, x))
                if x in decomp_names or a.ndim == 2:
                    env.equal(b, a, 'restored-' + x, 'restored %s' % x)
                else:
                    env.equal(b.ravel(), a.ravel(), 'restored-' + x, 'restored %s' % x)
                res[x] = b
        same_on_all(env, res, 'restored-differs-between-processes')
        # results computed from the restored object
        for w in Runner.KINDS[fam]:
            M = r2.modes(w, None, explicit(r2, fam, w, d, rng))
            if M is not None and full[w] is not None:
                env.close(M, full[w], 'restored-modes', 1e-12, scale=np.abs(full[w]).max(), what='%s of restored object' % w)
        c = r2.coeffs()
        for x, v in c.items():
            env.close(v, full[x], 'restored-coeffs', 1e-12, scale=max(1e-300, np.abs(full[x]).max()), what=x)
        # decompose again from restored correlation arrays
        redo = getattr(n2, 'compute_SVD' if fam == 'BPOD' else 'compute_eigendecomp')
        kw = dict(bpod_tol(d), rtol=d.rtol) if fam == 'BPOD' else dict(trunc_opts(d, False))
        if fam in ('DMD', 'TLS'):
            kw['max_num_eigvals'] = d.max_num
        redo(**kw)
        name = 'sing_vals' if fam == 'BPOD' else 'eigvals'
        a, b = getattr(o, name), getattr(n2, name)
        env.check(a.shape == b.shape and match_eigs(a, b) <= 1e-9 * max(1. if fam in ('DMD', 'TLS') else 1e-300, np.abs(a).max()), 'restored-recompute',
                  '%s after recomputing from restored arrays: %s, before: %s' % (name, b, a))
        env.sig(fam, env.size, kind, tuple(sorted(d.desc.items(), key=str)))
        env.count('restores_checked')
        # whatever is stored is what a process gets: any order, units and signs
        if kind == 'text':
            return
        content = {}
        for put, get, names in PUT_GET[fam]:
            for x in names:
                a = np.asarray(getattr(o, x))
                v = any_values(rng, a.shape, np.iscomplexobj(a))
                content[x] = v
                if env.rank == 0:
                    st.put(v, dest(x))
        if env.size > 1:
            st.mem = env.comm.bcast(st.mem)
        for put, get, names in PUT_GET[fam]:
            getattr(n2, get)(*[dest(x) for x in names])
            for x in names:
                env.equal(np.ravel(getattr(n2, x)), np.ravel(content[x]), 'restored-any', 'arbitrary %s' % x)
                env.count('arbitrary_contents_restored')


def save_gal_case(env, i):
    """Galerkin projection: put_model and single puts."""
    rng = make_rng(env.seed, 'savegal', i, env.size)
    n, k, p, q = int(rng.integers(3, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind = gen_kind(rng)
    st = Store(env, pick(rng, ['memory', 'npy', 'text']))
    from .ex_vs import build_handles, any_ip
    log = Log(env.rank)
    V = [gauss(rng, (n, x), kind) for x in (k, k, p)]
    C = gauss(rng, (q, k), kind)
    T = complex if kind == 'complex' else float
    hs = [build_handles(env, rng, v, [T] * v.shape[1], 'ev', 'MVec', 't%d' % j, log) for j, v in enumerate(V)]
    with env.case(i, dict(np=env.size, n=n, k=k, p=p, q=q, kind=kind, store=st.kind)):
        if env.size == 1 and rng.random() < .4:
            g = mr.LTIGalerkinProjectionArrays(V[0], put_array=st.put)
            A, B, Cr = g.compute_model(V[1], V[2], C)
        else:
            g = mr.LTIGalerkinProjectionHandles(any_ip(None), hs[0], put_array=st.put, verbosity=0)
            A, B, Cr = g.compute_model(hs[1], hs[2], list(C.T))
        pre = 'cplx' if kind == 'complex' else 'real'
        dests = [os.path.join(env.scratch, pre + x) for x in 'ABC']
        for step in (0, 1):
            n0 = len(st.log)
            if step == 0:
                g.put_model(*dests)
            else:
                g.put_A_reduced(dests[0])
                g.put_B_reduced(dests[1])
                g.put_C_reduced(dests[2])
            calls = env.comm.allgather(st.log[n0:]) if env.size > 1 else [st.log[n0:]]
            got = sorted(c for cs in calls for c in cs)
            env.check(got == [(0, x) for x in dests], 'save-put-calls', 'put function called %s for the reduced model' % (got,))
            env.count('array_puts', 3)
            if env.rank == 0:
                for x, a in zip(dests, (A, B, Cr)):
                    stored_equal(env, st, x, a, 'stored reduced array %s' % x[-1])
        env.sig('galerkin', env.size, n, k, p, q, kind, st.kind)


def save_era_case(env, i):
    """ERA: put_model, put_decomp, put_sing_vals (serial class)."""
    rng = make_rng(env.seed, 'saveera', i)
    st = Store(env, pick(rng, ['memory', 'npy', 'text']))
    p, q, nt = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(8, 24))
    M = rng.standard_normal((nt, q, p))
    with env.case(i, dict(p=p, q=q, nt=nt, store=st.kind)):
        e = mr.ERA(put_array=st.put, verbosity=0)
        ns = int(rng.integers(1, 3))
        A, B, C = e.compute_model(M, ns)
        dd = lambda x: os.path.join(env.scratch, 'real' + x)
        e.put_model(dd('A'), dd('B'), dd('C'))
        env.check([c[1] for c in st.log] == [dd('A'), dd('B'), dd('C')], 'save-put-calls', 'ERA.put_model: %s' % st.log)
        for x, a in zip('ABC', (A, B, C)):
            stored_equal(env, st, dd(x), a, 'ERA ' + x)
        del st.log[:]
        names = ['sing_vals', 'L_sing_vecs', 'R_sing_vecs', 'Hankel_array', 'Hankel_array2']
        e.put_decomp(*[dd(x) for x in names])
        env.check(sorted(c[1] for c in st.log) == sorted(dd(x) for x in names), 'save-put-calls', 'ERA.put_decomp: %s' % st.log)
        for x in names:
            stored_equal(env, st, dd(x), getattr(e, x), 'ERA ' + x)
        del st.log[:]
        e.put_sing_vals(dd('s2'))
        env.check([c[1] for c in st.log] == [dd('s2')], 'save-put-calls', 'ERA.put_sing_vals: %s' % st.log)
        stored_equal(env, st, dd('s2'), e.sing_vals, 'ERA sing vals')
        env.sig('era', p, q, nt, st.kind)


# ================================================================ C25
def reuse_case(env, i, fam):
    """One object used for several data sets and options, against fresh ones."""
    rng = make_rng(env.seed, 'reuse', fam, i, env.size)
    W = None
    kind = gen_kind(rng)
    n = int(rng.integers(2, 12))
    if fam != 'BPOD' and rng.random() < .7:
        W = gen_W(rng, n, kind)
    rngs = make_rng(env.seed, 'reuse2', fam, i, env.size)
    old = None
    # all of the same size and with one mode: only values tell them apart
    single = rng.random() < .25
    m1 = int(rng.integers(1, 5))
    for step in range(int(rng.integers(2, 5))):
        # all data sets of this object live in the same space
        for _ in range(300):
            if fam == 'BPOD':
                d = bpod_data(rng, p=1, q=1, steps=(1, m1)) if single else bpod_data(rng)
                if d.W is None:
                    break
            elif fam == 'POD':
                d = pod_data(rng, n=n, m=m1, W=W, rank=1) if single else pod_data(rng, n=n, m=int(rng.integers(1, 8)), W=W)
                break
            else:
                d = dmd_data(rng, n=n, m=m1, tls=fam == 'TLS', W=W, k=1) if single else dmd_data(rng, n=n, m=int(rng.integers(1, 8)), tls=fam == 'TLS', W=W)
                break
        else:
            return
        desc = dict(fam=fam, np=env.size, step=step, **d.desc)
        with env.case(i, desc):
            if old is None:
                old = Runner(env, fam, W, rngs)
            fresh = Runner(env, fam, W, rngs)
            how = pick(rng, ['new', 'same list', 'same handles', 'same handles and list']) if step else 'new'
            desc['how'] = how
            relocate(old, d, how)
            fresh.load(d)
            mode = pick(rng, ['decomp', 'restore' if single else 'decomp', 'restore']) if step else 'decomp'
            env.count('restored_into_used_objects', int(mode == 'restore'))
            b = fresh.decomp()
            if mode == 'decomp':
                a = old.decomp()
            else:
                names = PUT_GET[fam][0][2]
                st = {x: np.array(getattr(fresh.obj, x)) for x in names}
                old.obj.get_array = lambda x: st[x]
                old.obj.get_decomp(*names)
                a = {x: getattr(old.obj, x) for x in b}
            cmp_res(env, a, b, 'reuse-decomp')
            steps = [w for w in Runner.KINDS[fam]] + ['coeffs', 'again']
            if mode == 'restore' and fam in ('DMD', 'TLS'):
                steps.remove('coeffs')
            rng.shuffle(steps)
            ref = {}
            for w in steps:
                env.desc = dict(op=w, mode=mode, **desc)
                if w == 'coeffs':
                    cmp_res(env, old.coeffs(), fresh.coeffs(), 'reuse-coeffs')
                elif w == 'again':
                    if mode == 'decomp':
                        opts = {}
                        if rng.random() < .6:
                            # other tolerances in between, then back
                            if fam == 'BPOD':
                                old.obj.compute_SVD(atol=d.s[0] * .5)
                            elif fam == 'POD':
                                old.obj.compute_eigendecomp(atol=(d.s[0] * .7) ** 2)
                            else:
                                old.obj.compute_eigendecomp(max_num_eigvals=1)
                        if rng.random() < .5:
                            cmp_res(env, old.decomp(), b, 'reuse-repeat')
                        else:
                            kw = dict(bpod_tol(d), rtol=d.rtol) if fam == 'BPOD' else dict(trunc_opts(d, False))
                            if fam in ('DMD', 'TLS'):
                                kw['max_num_eigvals'] = d.max_num
                            (old.obj.compute_SVD if fam == 'BPOD' else old.obj.compute_eigendecomp)(**kw)
                            cmp_res(env, {x: getattr(old.obj, x) for x in b}, b, 'reuse-repeat')
                else:
                    give = explicit(old, fam, w, d, rng) if mode == 'restore' or rng.random() < .2 else None
                    k = old.count()
                    idx = [int(x) for x in rng.permutation(k)[:int(rng.integers(1, k + 1))]]
                    M, N = old.modes(w, idx, give), fresh.modes(w, idx)
                    if M is not None and N is not None:
                        env.close(M, N, 'reuse-modes', 1e-9, scale=max(1e-300, np.abs(N).max()), what='%s of reused object' % w)
                env.count('reuse_steps')
            env.sig(fam, env.size, step, mode, tuple(steps), tuple(sorted(d.desc.items(), key=str)))
    env.sample(env.desc)


def relocate(run, d, how):
    """Loads a data set into a used runner; the user may keep the lists or the
    handles and change what they contain."""
    kept = run.h if how != 'new' else None, run.ha if how != 'new' and run.fam != 'POD' else None
    run.load(d)
    for name, old in zip(('h', 'ha'), kept):
        new = getattr(run, name, None)
        if old is None or new is None:
            continue
        use = new
        if 'handles' in how:
            use = []
            for j, h in enumerate(new):
                if j < len(old):
                    old[j].data, old[j].make = h.data, h.make
                    h = old[j]
                use.append(h)
        if 'list' in how:
            old[:] = use
            use = old
        setattr(run, name, use)


def cmp_res(env, a, b, key):
    for x in b:
        env.close(a[x], b[x], key, 1e-9, scale=max(1e-300, np.abs(b[x]).max()), what='%s of reused object' % x)


def reuse_vs_case(env, i):
    """One vector space, one Galerkin projection, one ERA object used repeatedly."""
    rng = make_rng(env.seed, 'reusevs', i, env.size)
    from .ex_vs import build_handles, any_ip
    log = Log(env.rank)
    n, k = int(rng.integers(3, 9)), int(rng.integers(1, 4))
    kind = gen_kind(rng)
    T = complex if kind == 'complex' else float
    mk = lambda v, tag: build_handles(env, rng, v, [T] * v.shape[1], 'ev', 'MVec', tag, log)
    Phi = gauss(rng, (n, k), kind)
    Psi = Phi if rng.random() < .4 else gauss(rng, (n, k), kind) + Phi
    with env.case(i, dict(what='galerkin', np=env.size, n=n, k=k, kind=kind)):
        hp, hq = mk(Phi, 'p'), mk(Psi, 'q')
        g = mr.LTIGalerkinProjectionHandles(any_ip(None), hp, adjoint_basis_vec_handles=None if Psi is Phi else hq, verbosity=0)
        ga = None
        if env.size == 1:
            ga = mr.LTIGalerkinProjectionArrays(Phi, adjoint_basis_vecs=None if Psi is Phi else Psi)
        P = np.linalg.inv(Psi.conj().T.dot(Phi)).dot(Psi.conj().T)
        cond = np.linalg.cond(Psi.conj().T.dot(Phi))
        kept = []
        if cond < 1e4:
            ah, bh, Aa, Ba = [], [], np.empty((n, k), dtype=complex), None
            for step in range(5):
                op = pick(rng, ['A', 'B', 'C', 'model'])
                same = step and rng.random() < .5       # same lists and arrays with new contents
                A, B, C = gauss(rng, (n, k), kind), gauss(rng, (n, int(rng.integers(1, 4))), kind), gauss(rng, (int(rng.integers(1, 4)), k), kind)
                scale = cond * 10 * n
                if same:
                    B = gauss(rng, (n, max(1, len(bh))), kind)
                    ah[:] = mk(A, 'a%d' % step)
                    if Ba is None or Ba.shape != B.shape:
                        Ba = B.astype(complex)
                    Aa[:], Ba[:] = A, B
                    new = mk(B, 'b%d' % step)
                    if bh and rng.random() < .5:
                        for h, x in zip(bh, new):
                            h.data = x.data
                    else:
                        bh[:] = new
                else:
                    ah, bh, Aa, Ba = mk(A, 'a%d' % step), mk(B, 'b%d' % step), A.astype(complex), B.astype(complex)
                if op in ('A', 'model'):
                    got = [g.reduce_A(ah)] + ([ga.reduce_A(Aa)] if ga else [])
                    for x in got:
                        env.close(x, P.dot(A), 'reuse-galerkin', 1e-10, scale=scale, what='A_reduced at step %d' % step)
                        kept.append((x, P.dot(A)))
                if op in ('B', 'model'):
                    got = [g.reduce_B(bh)] + ([ga.reduce_B(Ba)] if ga else [])
                    for x in got:
                        env.close(x, P.dot(B), 'reuse-galerkin', 1e-10, scale=scale, what='B_reduced at step %d' % step)
                        kept.append((x, P.dot(B)))
                if op in ('C', 'model'):
                    env.close(g.reduce_C(list(C.T)), C, 'reuse-galerkin', 1e-12, what='C_reduced')
                env.count('reuse_steps')
            for x, want in kept:
                env.close(x, want, 'reuse-galerkin-earlier', 1e-10, scale=scale, what='array returned by an earlier call')
            env.sig('galerkin', env.size, n, k, kind, Psi is Phi)
    if env.size == 1:
        mc, mo = pick(rng, [(None, None), (2, 3), (3, None), (None, 2)])
        e = mr.ERA(mc=mc, mo=mo, verbosity=0)
        for step in range(4):
            p, q, nt = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(18, 30))
            new = rng.standard_normal((nt, q, p))
            if step and rng.random() < .4:
                M[:] = rng.standard_normal(M.shape)       # the same array with new contents
            else:
                M = new
            nt, q, p = M.shape
            kw = pick(rng, [{}, dict(mc=2, mo=2), dict(mc=1), dict(mo=3), dict(mc=2, mo=4)])
            ns = int(rng.integers(1, 3))
            with env.case(i, dict(what='era', mc=mc, mo=mo, step=step, kw=kw, nt=nt, p=p, q=q)):
                e.compute_model(M, ns, **kw)
                f = mr.ERA(mc=mc, mo=mo, verbosity=0)
                f.compute_model(M, ns, **kw)
                for x in ('A', 'B', 'C', 'Hankel_array', 'Hankel_array2', 'sing_vals'):
                    env.close(getattr(e, x), getattr(f, x), 'reuse-era', 1e-9, scale=max(1e-300, np.abs(getattr(f, x)).max()), what='ERA ' + x)
                env.count('reuse_steps')
                env.sig('era', mc, mo, step, nt, p, q, tuple(sorted(kw.items())))


# ================================================================ C04
class talking(object):
    """Every third computation reports progress, sometimes at every step; what is
    printed goes to a file."""

    def __init__(self, env, rng):
        from .ex_quiet import captured
        self.verbosity = int(rng.integers(3) == 0)
        self.interval = pick(rng, [0, 0, 1e-4, 10])
        self.cap = captured(env) if self.verbosity else None
        self.env = env

    def often(self, obj):
        if self.verbosity:
            obj.vec_space.print_interval = self.interval
            self.env.count('computations_with_progress_reports')

    def __enter__(self):
        if self.cap:
            self.cap.__enter__()
        return self

    def __exit__(self, *exc):
        if self.cap:
            self.cap.__exit__(*exc)
        return False


def par_case(env, i, fam, profile):
    """Same computation on every number of processes; rank-wise identical; judged
    by the oracle and (in the parent) against the run on one process."""
    rng = make_rng(env.seed, 'par', fam, i)          # data independent of the number of processes
    d = large_data(rng, fam, False) if i % 20 == 7 else make_data(rng, fam)
    r2 = make_rng(env.seed, 'parcfg', fam, i, env.size)
    delay = make_delay(r2, profile, env.rank, env.size)
    mv = pick(r2, [None, 3, 3 * env.size, 3 * env.size + 2, 5 * env.size, 100])
    desc = dict(fam=fam, np=env.size, profile=profile, max_vecs=mv, **d.desc)
    env.sample(desc)
    log = Log(env.rank)
    with env.case(i, desc):
        with perturbed(parallel, delay, sync=bool(r2.integers(2)), log=log), talking(env, r2) as talk:
            r = Runner(env, fam, d.W, r2, max_vecs=mv, delay=delay, vk=pick(r2, ['MVec', 'nd1']), verbosity=talk.verbosity)
            talk.often(r.obj)
            res = r.full(d)
        same_on_all(env, {k: v for k, v in res.items() if 'modes' not in k}, 'par-ranks-differ')
        judge_fam(env, res, d, fam, tag='par-' + fam.lower())
        env.count('mpi_calls', sum(e[2] == 'mpi' for e in log.events))
        env.sig(fam, env.size, profile, mv, tuple(sorted(d.desc.items(), key=str)))
        env.value = ('par', fam, np.asarray(res['sing_vals' if fam == 'BPOD' else 'eigvals']),
                     {k: np.asarray(v) for k, v in r.arrays().items()})


def mixed_case(env, i, fam):
    """Processes whose linear algebra kernels round (and choose signs) differently:
    the decomposition every process holds is still the same one."""
    rng = make_rng(env.seed, 'mixed', fam, i, env.size)
    d = make_data(rng, fam)
    desc = dict(fam=fam, np=env.size, mixed_cpus=True, **d.desc)
    g = np.random.default_rng(7).standard_normal((12, 12))
    probe = env.comm.allgather(digest(dict(a=np.linalg.svd(g)[0], b=np.linalg.eigh(g + g.T)[1])))
    if any(p != probe[0] for p in probe):
        env.count('runs_with_differently_rounding_processes')
    with env.case(i, desc):
        r = Runner(env, fam, d.W, rng)
        r.load(d)
        res = r.decomp()
        same_on_all(env, dict(res, **r.arrays()), 'par-ranks-differ')
        res.update(r.all_modes())
        res.update(r.coeffs())
        res.update(r.arrays())
        judge_fam(env, res, d, fam, tag='par-' + fam.lower())
        # Decompose again from the arrays, which is done without vectors
        if fam == 'BPOD':
            r.obj.compute_SVD(rtol=d.rtol, **bpod_tol(d))
        else:
            r.obj.compute_eigendecomp(**trunc_opts(d, False))
        same_on_all(env, {k: getattr(r.obj, k) for k in ('eigvals', 'eigvecs', 'sing_vals', 'L_sing_vecs', 'R_sing_vecs',
                                                         'R_low_order_eigvecs', 'L_low_order_eigvecs') if hasattr(r.obj, k)},
                    'par-ranks-differ')
        env.count('mixed_processor_decompositions')
        env.sig('mixed', fam, env.size, tuple(sorted(d.desc.items(), key=str)))


def par_gal_case(env, i, profile):
    rng = make_rng(env.seed, 'pargal', i)
    from .ex_vs import build_handles, any_ip
    from .ex_dec import collect
    n, k, p, q = int(rng.integers(3, 10)), int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    kind = gen_kind(rng)
    k = min(k, n)
    T = complex if kind == 'complex' else float
    W = gen_W(rng, n, kind)
    Phi = gauss(rng, (n, k), kind)
    Psi = Phi + .2 * gauss(rng, (n, k), kind)
    A, B, C = gauss(rng, (n, k), kind), gauss(rng, (n, p), kind), gauss(rng, (q, k), kind)
    sym = bool(rng.integers(2))
    r2 = make_rng(env.seed, 'pargalcfg', i, env.size)
    delay = make_delay(r2, profile, env.rank, env.size)
    log = Log(env.rank)
    mv = pick(r2, [10000, 3, 4 * env.size])
    mk = lambda v, tag: build_handles(env, r2, v, [T] * v.shape[1], 'ev', 'MVec', tag, log, delay)
    with env.case(i, dict(what='galerkin', np=env.size, n=n, k=k, p=p, q=q, kind=kind, sym=sym, profile=profile)):
        with perturbed(parallel, delay, sync=bool(r2.integers(2)), log=log), talking(env, r2) as talk:
            g = mr.LTIGalerkinProjectionHandles(any_ip(W), mk(Phi, 'p'), adjoint_basis_vec_handles=None if sym else mk(Psi, 'q'),
                                                verbosity=talk.verbosity, max_vecs_per_node=mv)
            talk.often(g)
            Ar, Br, Cr = g.compute_model(mk(A, 'a'), mk(B, 'b'), list(C.T))
        same_on_all(env, dict(A=Ar, B=Br, C=Cr), 'par-ranks-differ')
        L = Phi if sym else Psi
        G = gram(L, Phi, W)
        cond = np.linalg.cond(G)
        if cond < 1e5:
            P = np.linalg.inv(G)
            env.close(Ar, P.dot(gram(L, A, W)), 'par-galerkin', 1e-9, scale=cond * n * 10, what='A_reduced')
            env.close(Br, P.dot(gram(L, B, W)), 'par-galerkin', 1e-9, scale=cond * n * 10, what='B_reduced')
        env.close(Cr, C, 'par-galerkin', 1e-12, what='C_reduced')
        env.value = ('gal', 'galerkin', np.ravel(Ar), dict(A=np.asarray(Ar), B=np.asarray(Br))) if cond < 1e3 else None
        # time derivatives
        m = int(rng.integers(1, 12))
        X, Y = gauss(rng, (n, m), kind), gauss(rng, (n, m), kind)
        dt = float(rng.uniform(.1, 3))
        outs = [EvHandle(('d', j), None, log, delay=delay) for j in range(m)]
        with perturbed(parallel, delay, log=log):
            mr.compute_derivs_handles(mk(X, 'x'), mk(Y, 'y'), outs, dt)
        D = collect(env, outs, 'deriv-put')
        if D is not None:
            env.close(D, (Y - X) / dt, 'par-derivs', 1e-12, scale=10 / dt, what='derivatives')
        env.count('derivs_checked', m)
        env.sig('galerkin', env.size, n, k, p, q, kind, sym, profile, m)
