"""Accuracy: small singular values next to large ones must survive wherever the
documentation promises that data aren't squared."""
import numpy as np
import modred as mr

from .core import make_rng
from .data import gauss, ortho, gram, sqrt_w, weights, markov
from .ex_vs import pick


def graded(rng, r, lo=9., hi=11.):
    """Singular values over many decades, each at least 1.5 times the next."""
    top = rng.uniform(lo, hi)
    e = np.sort(rng.uniform(0, top, r))
    e = e - e[0]
    if r > 1:
        e *= top / max(e[-1], 1e-3)
        e += np.arange(r) * .2
    return 10. ** -e


def small_weights(rng, n, kind):
    W = weights(rng, n, pick(rng, ['none', 'none', '1d', '2d']), kind)
    return W if W is None or W.ndim == 1 or np.linalg.cond(W) < 1e2 else None


def pod_case(env, i):
    rng = make_rng(env.seed, 'acc-pod', i)
    kind = pick(rng, ['real', 'complex'])
    r = int(rng.integers(2, 7))
    n, m = pick(rng, [(r, r), (r + int(rng.integers(0, 30)), r), (r, r + int(rng.integers(0, 30))), (int(rng.integers(60, 300)), r), (int(rng.integers(20, 60)),) * 2])
    W = small_weights(rng, n, kind)
    s = graded(rng, r) * 10. ** rng.uniform(-3, 3)
    R = sqrt_w(W, n)
    U, V = ortho(rng, n, r, kind), ortho(rng, m, r, kind)
    X = np.linalg.solve(R, (U * s).dot(V.conj().T))
    modes = np.linalg.solve(R, U)
    atol = s[-1] * .2
    kw = dict(inner_product_weights=W, atol=atol)
    desc = dict(n=n, m=m, r=r, kind=kind, W=None if W is None else W.ndim, ratio=s[-1] / s[0])
    tol = 1e-12 * s[0]
    with env.case((i, 'pod'), desc):
        res = mr.compute_POD_arrays_direct_method(X, **kw)
        ev = np.ravel(res.eigvals)
        if env.check(len(ev) == r, 'accuracy-pod', '%d of %d modes found' % (len(ev), r)):
            env.close(np.sqrt(ev), s, 'accuracy-pod', 1e-12, scale=s[0], what='square roots of the eigenvalues')
            P = np.array(res.modes)
            env.close(gram(P, P, W), np.eye(r), 'accuracy-pod-modes', 1e-3, what='Gram array of the modes')
            for j in range(r):
                c = abs(gram(modes[:, j:j + 1], P[:, j:j + 1], W)[0, 0])
                env.check(abs(c - 1) < 1e-3, 'accuracy-pod-modes', 'mode %d (singular value %g of %g) has a component %g along the true one' % (j, s[j], s[0], c))
            env.close(P.dot(np.array(res.proj_coeffs)), X, 'accuracy-pod-coeffs', 1e-11, scale=np.abs(X).max(), what='reconstruction')
        env.count('pod_modes_resolved', r)
    # the same data in the other direct methods
    Y = np.linalg.solve(R, (ortho(rng, n, r, kind) * s).dot(V.conj().T))
    with env.case((i, 'dmd'), desc):
        res = mr.compute_DMD_arrays_direct_method(X, adv_vecs=Y, **kw)
        ev = np.ravel(res.correlation_array_eigvals)
        if env.check(len(ev) == r, 'accuracy-dmd', '%d of %d values found' % (len(ev), r)):
            env.close(np.sqrt(ev), s, 'accuracy-dmd', 1e-12, scale=s[0], what='square roots of the correlation array eigenvalues')
        env.count('dmd_values_resolved', r)
    with env.case((i, 'tls'), desc):
        res = mr.compute_TLSqrDMD_arrays_direct_method(X, adv_vecs=Y, **kw)
        st = np.linalg.svd(np.vstack((R.dot(X), R.dot(Y))), compute_uv=False)[:r]
        ev = np.ravel(res.sum_correlation_array_eigvals)
        if env.check(len(ev) == r, 'accuracy-tls', '%d of %d values found' % (len(ev), r)):
            env.close(np.sqrt(ev), st, 'accuracy-tls', 1e-12, scale=st[0], what='square roots of the sum of the correlation arrays\' eigenvalues')
        env.count('tls_values_resolved', r)
    with env.case((i, 'svd'), desc):
        A = (U * s).dot(V.conj().T)
        L, sv, Rv = mr.svd(A, atol=atol) if hasattr(mr, 'svd') else mr.util.svd(A, atol=atol)
        if env.check(len(sv) == r, 'accuracy-svd', '%d of %d values found' % (len(sv), r)):
            env.close(sv, s, 'accuracy-svd', 1e-13, scale=s[0], what='singular values')
            env.close((np.array(L) * sv).dot(np.array(Rv).conj().T), A, 'accuracy-svd', 1e-13, scale=s[0], what='product of the factors')
        env.count('singular_values_resolved', r)
        env.sig(n, m, r, kind, desc['W'])
    env.sample(desc)


def weak_system(rng):
    """A stable system some of whose states hardly show."""
    for _ in range(200):
        n, p, q = int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        kind = pick(rng, ['real', 'complex'])
        lam = rng.uniform(.3, .9, n) * rng.choice([-1, 1], n)
        if kind == 'complex':
            lam = lam * np.exp(2j * np.pi * rng.random(n))
        g = 10. ** -np.sort(rng.uniform(0, 5, n))
        g[0] = 1.
        A, B, C = np.diag(lam), gauss(rng, (n, p), kind) * g[:, None], gauss(rng, (q, n), kind) * g
        m, l = n + int(rng.integers(0, 4)), n + int(rng.integers(0, 4))
        M = markov(A, B, C, m + l + 6)
        H = np.vstack([np.hstack([M[a + b] for b in range(m)]) for a in range(l)])
        s = np.linalg.svd(H, compute_uv=False)
        if len(s) >= n and 1e-10 < s[n - 1] / s[0] < 1e-7 and (len(s) == n or s[n] < 1e-15 * s[0] * 10):
            return A, B, C, M, H, s[:n], m, l, kind
    return None


def system_case(env, i):
    rng = make_rng(env.seed, 'acc-sys', i)
    x = weak_system(rng)
    if x is None:
        return
    A, B, C, M, H, s, m, l, kind = x
    n, p, q = len(A), B.shape[1], C.shape[0]
    X = np.hstack([np.linalg.matrix_power(A, k).dot(B) for k in range(m)])
    Y = np.hstack([np.linalg.matrix_power(A.conj().T, k).dot(C.conj().T) for k in range(l)])
    cut = float(np.sqrt(s[-1] * 1e-15 * s[0]))
    desc = dict(np=env.size, n=n, p=p, q=q, m=m, l=l, kind=kind, ratio=s[-1] / s[0])
    if env.size == 1:
        with env.case((i, 'bpod-arrays'), desc):
            res = mr.compute_BPOD_arrays(X, Y, num_inputs=p, num_outputs=q, atol=cut)
            sv = np.ravel(res.sing_vals)
            if env.check(len(sv) == n, 'accuracy-bpod', '%d of %d values found: %s, expected %s' % (len(sv), n, sv, s)):
                env.close(sv, s, 'accuracy-bpod', 1e-13, scale=s[0], what='singular values')
                env.close(np.array(res.adjoint_modes).conj().T.dot(np.array(res.direct_modes)), np.eye(n), 'accuracy-bpod', 1e-3, what='inner products of the modes')
            env.count('bpod_values_resolved', n)
        with env.case((i, 'era'), desc):
            sampled = mr.make_sampled_format(np.arange(m + l), M[:m + l])[1]
            e = mr.ERA(mc=m, mo=l, verbosity=0)
            # tolerances of ERA are its own
            model = e.compute_model(sampled, n)
            sv = np.ravel(e.sing_vals)
            if env.check(len(sv) >= n, 'accuracy-era', '%d of %d values found' % (len(sv), n)):
                env.close(sv[:n], s, 'accuracy-era', 1e-13, scale=s[0], what='singular values')
                env.close(markov(*[np.array(a) for a in model], n=m + l), M[:m + l], 'accuracy-era', 1e-6, scale=np.abs(M).max(), what='impulse response')
            env.count('era_values_resolved', n)
    with env.case((i, 'bpod-handles'), desc):
        mem = lambda V: [mr.VecHandleInMemory(vec=v) for v in V.T]
        b = mr.BPODHandles(lambda a, c: np.vdot(a, c), verbosity=0)
        sv = np.ravel(b.compute_decomp(mem(X), mem(Y), num_inputs=p, num_outputs=q, atol=cut)[0])
        if env.check(len(sv) == n, 'accuracy-bpod', '%d of %d values found: %s, expected %s' % (len(sv), n, sv, s)):
            env.close(sv, s, 'accuracy-bpod', 1e-13, scale=s[0], what='singular values')
        env.count('bpod_values_resolved', n)
        env.sig(env.size, n, p, q, m, l, kind)


def okid_case(env, i):
    """Smooth inputs, for which the regression is ill conditioned."""
    rng = make_rng(env.seed, 'acc-okid', i)
    for _ in range(200):
        n, p, q = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
        lam = rng.uniform(.2, .9, n) * rng.choice([-1, 1], n)
        A, B, C = np.diag(lam), gauss(rng, (n, p)), gauss(rng, (q, n))
        nm = n + int(rng.integers(2, 5))
        T = (p + q) * nm * pick(rng, [3, 3, 30]) + int(rng.integers(20, 80))
        a = rng.uniform(.8, .99)
        u, v = np.zeros((p, T)), np.zeros(p)
        w = np.zeros(p)
        for k in range(T):
            v = a * v + rng.standard_normal(p) * (1 - a)
            w = a * w + v * (1 - a)
            u[:, k] = w
        u /= np.abs(u).max()
        U = np.vstack([np.hstack((np.zeros((p, k)), u[:, :T - k])) for k in range(nm + n)])
        cond = np.linalg.cond(U)
        if 1e3 < cond < 3e5:
            break
    else:
        return
    x, y = np.zeros(n), []
    for k in range(T):
        y.append(C.dot(x))
        x = A.dot(x) + B.dot(u[:, k])
    y = np.array(y).T
    M = markov(A, B, C, nm)
    with env.case(i, dict(n=n, p=p, q=q, nm=nm, T=T, cond=cond)):
        got = mr.OKID(u, y, nm)
        env.close(got[1:], M[:nm - 1], 'accuracy-okid', 1e-12 * cond, scale=np.abs(M).max(), what='Markov parameters')
        env.count('ill_conditioned_identifications')
        env.sig('okid', n, p, q, nm)
